// C13: what a proxied request becomes. Every request of an alphabet (method x target form x host x headers x
// body) is sent as raw bytes through a real HTTP server to a proxying site; the far end of every connection
// the site opens is the harness, which compares what arrives with what was sent.
package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httputil"
	"net/url"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/redmaner/MaguroHTTP/tuna"
	"verif/h"
	"verif/ref"
	"verif/vsched"
)

// Rq is one request of the alphabet.
type Rq struct{ Method, Target, Host, Headers, Body int }

// CutCase is a request whose client goes away after so many bytes.
type CutCase struct {
	Req Rq
	At  int
}

// Case is a site and requests sent over one client connection.
type Case struct {
	Site int
	Reqs []Rq
	Two  bool `json:",omitempty"` // over HTTP/2
}

var (
	methods = []string{"GET", "POST", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS", "MKCOL"}
	targets = []string{"/", "/x", "/x/", "/x?q=1", "/x?", "/?a=b&a=c&d", "/a/b/c.html?x=/y?z", "/a%20b", "/a%2Fb/c", "/%41%7a", "/x/../y", "/../../y", "//y//z", "/./x", "/x//../y/", "/a+b?c+d=%20", "/%e2%82%ac", "/%ff%fe", "/a;b=c,d:e@f!$&'()*", "/x%23y", "/x#y", "/x?q=1#y", "/x%3Fy?z", "/a\"b<c>d|e^f`g{h}", "/\\..\\x", "/@up-c", "/:81/x", "/.up-c/x", "/%2e%2e/x", "/%25x", "/x?%zz", "/x?a=\"<>|",
		"http://a.test/abs", "http://b.test:8080/abs?q=2", "https://a.test/x", "http://nobody.test/x", "http://a.test", "http://u:p@a.test/x", "http:opaque", "http:@up-c/x", "http:.up-c/x", "mailto:x", "*", "x", "@up-c/", "/%zz", "a.test:80", "HTTP://A.TEST/x"}
	hosts   = []string{"a.test", "b.test:8080", "b.test", "c.test", "d.test", "nobody.test", "up-a", "A.TEST", "a.test:x", "[::1]:80", "a.test@up-c", "user@a.test", "", "a.test.", "xa.test", "www.a.test", "sub.b.test", "a.test.nobody.test", "test", "a", "a.tes", "a.test:80:80", "a-test"}
	headers = [][]string{
		{},
		{"User-Agent", "ua/1", "Accept", "*/*", "Cookie", "a=b", "Cookie", "c=d; e=\"f\"", "Authorization", "Basic dTpw"},
		{"X-Many", "1", "x-many", "2", "X-MANY", "", "X-Many", "1", "X-Empty", "", "x-odd_name.1", "v"},
		{"Accept-Encoding", "br", "If-None-Match", "\"x\"", "Range", "bytes=0-1", "Referer", "http://a.test/#x"},
		{"X-Forwarded-For", "1.2.3.4", "X-Forwarded-Host", "nobody.test", "Forwarded", "for=1.2.3.4", "Via", "1.1 x", "X-Real-IP", "4.3.2.1"},
		{"X-Long", strings.Repeat("longvalue,", 900), "X-Bytes", "\x80\xff caf\xc3\xa9", "X-Sep", "a, b ,c;d", "Content-Type", "text/plain; charset=x"},
		{"Accept-Encoding", "gzip", "Content-Type", "multipart/form-data; boundary=x", "Content-Language", "nl", "Date", "x", "Origin", "null"},
		{"Expect", "100-continue", "X-A", "1"},
		crowd(),
	}
	bodies = []body{
		{}, {cl: true}, {cl: true, data: []byte("x=1&y=2")}, {cl: true, data: bytes.Repeat([]byte("0123456789abcdef"), 5000)},
		{chunked: true}, {chunked: true, data: []byte("\x00\xff\r\n0\r\n\r\nGET / HTTP/1.1\r\n\r\n")}, {chunked: true, data: bytes.Repeat([]byte("chunk"), 9000)},
	}
)

// names are request headers in use; each is sent alone.
var names = strings.Fields("A-IM Accept Accept-CH Accept-Charset Accept-Datetime Accept-Language Accept-Patch Access-Control-Request-Headers Access-Control-Request-Method Authorization Baggage Cache-Control CDN-Loop Client-IP Content-Disposition Content-Encoding Content-Language Content-Location Content-MD5 Content-Range Content-Type Cookie Date Depth Destination Device-Memory Digest DNT Downlink Early-Data ECT ETag Forwarded From Front-End-Https HTTP2-Settings Idempotency-Key If If-Match If-Modified-Since If-None-Match If-Range If-Unmodified-Since Last-Event-ID Last-Modified Link Location Lock-Token Max-Forwards MIME-Version Origin Overwrite Ping-From Pragma Prefer Priority Purpose Range Referer RTT Save-Data Sec-CH-UA Sec-CH-UA-Platform Sec-Fetch-Dest Sec-Fetch-Mode Sec-Fetch-Site Sec-Fetch-User Sec-GPC Sec-WebSocket-Key Sec-WebSocket-Version Server Service-Worker Set-Cookie Signature SOAPAction SourceMap Surrogate-Capability Timeout Tk Traceparent Tracestate True-Client-IP Upgrade-Insecure-Requests Upgrade User-Agent Vary Via Want-Digest Warning X-Api-Key X-ATT-DeviceId X-Auth-Token X-B3-TraceId X-Cluster-Client-IP X-Correlation-ID X-Csrf-Token X-Do-Not-Track X-Forwarded-For X-Forwarded-Host X-Forwarded-Path X-Forwarded-Port X-Forwarded-Prefix X-Forwarded-Proto X-Forwarded-Scheme X-Forwarded-Server X-Forwarded-SSL X-Http-Method X-HTTP-Method-Override X-Method-Override X-Original-Host X-Original-URL X-ProxyUser-Ip X-Real-IP X-Request-ID X-Requested-With X-Rewrite-URL X-Scheme X-UA-Compatible X-UIDH X-Url-Scheme X-Wap-Profile")

// sizes of large bodies
var sizes = []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 4<<20 + 1, 10<<20 + 1, 33<<20 + 1}

var nHeaders, nBodies, nTargets, nHosts = len(headers), len(bodies), len(targets), len(hosts)

var upgrade int

func init() {
	// what only HTTP/2 clients can send
	targets = append(targets, "/x?a b", "/x? HTTP/1.1", "/x? b", "/?a ", "/x y", "/x y?z q#r", "/x HTTP/1.0?a", "/ ", "/x?a b%20c+d", "/x?\"<>\\^`{|}", "/x?\xff", "/\xff x")
	hosts = append(hosts, "a.test/x", "a.test ", " a.test", "a.test HTTP/1.1", "a.test/", "/", "a.test?x", "a.test#x", "a.test\\x", "a.test%2fx", "a.test\tx", "\xffa.test")
	for _, n := range names {
		if n == "Upgrade" { // which HTTP/2 does not have
			upgrade = len(headers)
		}
		headers = append(headers, []string{n, "v 1, w=\"2\""})
	}
	for _, n := range sizes {
		b := make([]byte, 0, n+8)
		for i := 0; len(b) < n; i++ {
			b = fmt.Appendf(b, "%07x ", i)
		}
		for _, ch := range []bool{false, true} {
			bodies = append(bodies, body{chunked: ch, cl: !ch, data: b[:n]})
		}
	}
}

type body struct {
	chunked bool
	cl      bool
	data    []byte
}

// crowd is a large number of headers, many of them repeated.
func crowd() (out []string) {
	for i := 0; i < 40; i++ {
		out = append(out, fmt.Sprintf("X-Crowd-%d", i), fmt.Sprint(i))
		if i < 12 {
			out = append(out, "X-Same", fmt.Sprint(i), "Accept-Language", fmt.Sprint("l", i), "Cookie", fmt.Sprintf("c%d=%d", i, i), "Accept", "a/"+fmt.Sprint(i), "If-None-Match", fmt.Sprintf("%q", fmt.Sprint(i)), "Via", fmt.Sprint("1.1 ", i))
		}
	}
	return
}

type rule struct{ host, to string }

type site struct {
	vhosts [][]rule // one element: no virtual hosting
}

var sites = []site{
	{[][]rule{{{"a.test", "http://up-a:81"}, {"b.test", "http://up-b/base/path"}, {"c.test", "https://up-c"}, {"d.test", "http://up-d:8080/x?fixed="}}}},
	{[][]rule{{{"a.test", "http://up-a"}, {"b.test", "http://up-x"}}, {{"b.test", "http://up-b:82"}, {"d.test", "http://up-d"}}}},
}

var vhostName = []string{"a.test", "b.test"}

// expected destination of a host name; virtual hosts own what only they name
func destination(si int, host string) (string, bool) {
	for v, rs := range sites[si].vhosts {
		for _, r := range rs {
			if r.host == host && (len(sites[si].vhosts) == 1 || host == vhostName[v] || host != vhostName[1-v]) {
				return r.to, true
			}
		}
	}
	return "", false
}

type contact struct {
	addr  string
	tls   bool
	line  string
	hdr   [][2]string
	body  []byte
	whole bool
}

type world struct {
	mu    sync.Mutex
	got   []*contact
	s     *tuna.Server
	front *h.Front
	n     int
}

func (w *world) dial(_ context.Context, _, addr string) (net.Conn, error) {
	a, b := net.Pipe()
	go w.upstream(b, addr)
	return a, nil
}

func (w *world) add(c *contact) {
	w.mu.Lock()
	w.got = append(w.got, c)
	w.mu.Unlock()
}

// upstream reads requests and answers each with a page of its own.
func (w *world) upstream(c net.Conn, addr string) {
	defer c.Close()
	br := bufio.NewReader(c)
	for {
		first, err := br.Peek(1)
		if err != nil {
			return
		}
		ct := &contact{addr: addr}
		if first[0] == 0x16 {
			ct.tls = true
			w.add(ct)
			return
		}
		w.add(ct)
		line, err := br.ReadString('\n')
		ct.line = strings.TrimRight(line, "\r\n")
		cl, chunked, expect := 0, false, false
		for err == nil {
			line, err = br.ReadString('\n')
			line = strings.TrimRight(line, "\r\n")
			if line == "" {
				break
			}
			i := strings.Index(line, ":")
			if i < 0 {
				ct.hdr = append(ct.hdr, [2]string{"", line})
				continue
			}
			k, v := line[:i], strings.TrimSpace(line[i+1:])
			ct.hdr = append(ct.hdr, [2]string{k, v})
			switch strings.ToLower(k) {
			case "content-length":
				cl, _ = strconv.Atoi(v)
			case "transfer-encoding":
				chunked = v == "chunked"
			case "expect":
				expect = true
			}
		}
		if err != nil {
			return
		}
		if expect && (cl > 0 || chunked) {
			io.WriteString(c, "HTTP/1.1 100 Continue\r\n\r\n")
		}
		if chunked {
			ct.body, err = io.ReadAll(httputil.NewChunkedReader(br))
			br.ReadString('\n')
		} else {
			ct.body, err = io.ReadAll(io.LimitReader(br, int64(cl)))
			if len(ct.body) < cl {
				err = io.ErrUnexpectedEOF
			}
		}
		ct.whole = err == nil
		if err != nil {
			return
		}
		page := "answer to " + ct.line + " at " + addr
		m := strings.SplitN(ct.line, " ", 2)[0]
		resp := fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nX-Upstream: %s\r\nContent-Length: %d\r\n\r\n", addr, len(page))
		if m != "HEAD" {
			resp += page
		}
		if _, err := io.WriteString(c, resp); err != nil {
			return
		}
	}
}

var cache = map[int]*world{}

func newWorld(ctx *h.Ctx, si int) *world {
	dir := ctx.Dir("site")
	core := h.Core(dir)
	core["LogOut"] = "/dev/null"
	core["WebDAV"] = true
	cfg := h.M{"Core": core}
	sec := func(rs []rule) h.M {
		r := h.M{}
		for _, x := range rs {
			r[x.host] = x.to
		}
		return h.M{"Guard": h.Generous(), "Proxy": h.M{"Enabled": true, "Rules": r, "Methods": []string{"GET", "POST", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS"}}}
	}
	if len(sites[si].vhosts) == 1 {
		for k, v := range sec(sites[si].vhosts[0]) {
			cfg[k] = v
		}
	} else {
		vh := h.M{}
		for i, rs := range sites[si].vhosts {
			s := sec(rs)
			if i == 0 { // a rule for the name of the other virtual host would make the owner ambiguous
				delete(s["Proxy"].(h.M)["Rules"].(h.M), vhostName[1])
			}
			vh[vhostName[i]] = h.PutJSON(filepath.Join(dir, vhostName[i]+".json"), s)
		}
		core["VirtualHosting"], core["VirtualHosts"] = true, vh
	}
	w := &world{}
	w.s = h.Server(dir, cfg)
	h.Dialer(w.s, w.dial)
	w.front = h.NewFront2(w.s.Router)
	return w
}

func (q Rq) raw() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\n", methods[q.Method], targets[q.Target], hosts[q.Host])
	hs := headers[q.Headers]
	for i := 0; i < len(hs); i += 2 {
		fmt.Fprintf(&b, "%s: %s\r\n", hs[i], hs[i+1])
	}
	bd := bodies[q.Body]
	switch {
	case bd.chunked:
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		for d := bd.data; len(d) > 0; {
			n := 7000
			if n > len(d) {
				n = len(d)
			}
			fmt.Fprintf(&b, "%x\r\n%s\r\n", n, d[:n])
			d = d[n:]
		}
		b.WriteString("0\r\n\r\n")
	case bd.cl:
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(bd.data), bd.data)
	default:
		b.WriteString("\r\n")
	}
	return b.String()
}

// fields are the request in HTTP/2.
func (q Rq) fields() (fs [][2]string, body []byte) {
	fs = h.Get2(methods[q.Method], hosts[q.Host], targets[q.Target], headers[q.Headers]...)
	switch b := bodies[q.Body]; {
	case b.cl:
		return append(fs, [2]string{"content-length", fmt.Sprint(len(b.data))}), append([]byte{}, b.data...)
	case b.chunked:
		return fs, append([]byte{}, b.data...)
	}
	return fs, nil
}

// what the target asks for: host ("" if the Host header counts), raw path, query; ok false if the target has no path
func split(target string) (host, path, query string, hasQuery, ok bool) {
	t := target
	if l := strings.ToLower(t); strings.HasPrefix(l, "http://") || strings.HasPrefix(l, "https://") {
		t = t[strings.Index(t, "://")+3:]
		i := strings.IndexAny(t, "/?")
		if i < 0 {
			i = len(t)
		}
		host, t = t[:i], t[i:]
		if j := strings.LastIndex(host, "@"); j >= 0 {
			host = host[j+1:]
		}
		if t == "" || t[0] == '?' {
			t = "/" + t
		}
	}
	if !strings.HasPrefix(t, "/") {
		return "", "", "", false, false
	}
	path = t
	if i := strings.Index(t, "?"); i >= 0 {
		path, query, hasQuery = t[:i], t[i+1:], true
	}
	return host, path, query, hasQuery, true
}

// norm is the path with every segment decoded.
func norm(p string) string {
	segs := strings.Split(p, "/")
	for i, s := range segs {
		u, err := url.PathUnescape(s)
		if err != nil {
			u = "undecodable " + s
		}
		segs[i] = fmt.Sprintf("%q", u)
	}
	return strings.Join(segs, "/")
}

var escape = strings.NewReplacer("#", "%23", " ", "%20")

var connection = map[string]bool{"host": true, "content-length": true, "transfer-encoding": true, "connection": true, "expect": true}

func values(hs [][2]string, skip map[string]bool) map[string]string {
	out := map[string]string{}
	for _, x := range hs {
		k := strings.ToLower(x[0])
		if !connection[k] && !skip[k] {
			out[k] += fmt.Sprintf("%q ", x[1])
		}
	}
	return out
}

// judge compares what the upstreams got with what one request means.
func judge(si int, q Rq, two bool, a h.Answer, got []*contact) (class, bad string) {
	m := methods[q.Method]
	tHost, path, query, hasQuery, ok := split(targets[q.Target])
	name := hosts[q.Host]
	if tHost != "" {
		name = tHost
	}
	name = ref.StripPort(name)
	to, known := destination(si, name)
	show := func(s string) (string, string) {
		var l []string
		for _, c := range got {
			l = append(l, fmt.Sprintf("%s tls=%v %q %q %d bytes", c.addr, c.tls, c.line, c.hdr, len(c.body)))
		}
		raw := q.raw()
		if len(raw) > 600 {
			raw = raw[:600] + "..."
		}
		return "differs", fmt.Sprintf("%s\nrequest %q\nrules %v\nanswer %d %q (%v)\nupstream requests:\n%s", s, raw, sites[si].vhosts, a.Status, a.Body, a.Err, strings.Join(l, "\n"))
	}
	var u *url.URL
	if known {
		u, _ = url.Parse(to)
	}
	for _, c := range got {
		if !known {
			return show("a request for a name that no rule covers contacts a host")
		}
		want := u.Host
		if u.Port() == "" {
			want += map[string]string{"http": ":80", "https": ":443"}[u.Scheme]
		}
		if c.addr != want {
			return show("a host is contacted that the rule does not name")
		}
		if c.tls != (u.Scheme == "https") {
			return show("the scheme of the rule is not kept")
		}
	}
	if len(got) > 1 {
		return show("one request contacts the upstream more than once")
	}
	if !known {
		if a.Err == nil && a.Status < 400 && !(m == "OPTIONS" && targets[q.Target] == "*") {
			return show("a request for a name that no rule covers is answered as served")
		}
		return fmt.Sprint("unknown host ", a.Status), ""
	}
	if u.Scheme == "https" && len(got) == 1 {
		if a.Status != 502 {
			return show("a failed handshake with the upstream is not answered 502")
		}
		return "https", ""
	}
	if m == "MKCOL" {
		if len(got) > 0 || a.Err == nil && a.Status < 400 || a.Err != nil && !two {
			return show("a method the site does not allow reaches the upstream")
		}
		return "method refused", ""
	}
	plain := ok && (!two || strings.HasPrefix(targets[q.Target], "/") && fmt.Sprint(headers[q.Headers]) != fmt.Sprint(headers[upgrade]))
	for i := 0; i < len(path); i++ {
		if path[i] == '%' && (i+2 >= len(path) || !hex(path[i+1]) || !hex(path[i+2])) {
			plain = false
		}
	}
	if hosts[q.Host] == "" && tHost == "" || strings.ContainsAny(hosts[q.Host], "@ ") || strings.Contains(targets[q.Target], "@a.test") {
		plain = false
	}
	if len(got) == 0 && m == "OPTIONS" && targets[q.Target] == "*" {
		return "about the server itself", ""
	}
	if len(got) == 0 {
		if plain || a.Err == nil && a.Status < 400 {
			return show("a request the rule covers does not reach the upstream")
		}
		return fmt.Sprint("refused ", a.Status), ""
	}
	c := got[0]
	f := strings.Split(c.line, " ")
	if len(f) != 3 || f[2] != "HTTP/1.1" {
		return show("the upstream gets a malformed request")
	}
	if f[0] != m {
		return show("the method changes on the way")
	}
	if a.Status != 200 || a.Header.Get("X-Upstream") != c.addr || m != "HEAD" && string(a.Body) != "answer to "+c.line+" at "+c.addr {
		return show("the answer of the upstream does not reach the client")
	}
	hv := ""
	for _, x := range c.hdr {
		if strings.EqualFold(x[0], "host") {
			hv += x[1] + ","
		}
	}
	if hv != name+"," {
		return show("the upstream does not get the requested name as host")
	}
	if ok {
		up, uq, uhas := f[1], "", false
		if i := strings.Index(up, "?"); i >= 0 {
			up, uq, uhas = up[:i], up[i+1:], true
		}
		wp, wq, whas := u.Path+path, query, hasQuery
		if u.RawQuery != "" { // a rule with a query takes the request target as the rest of it
			wp, wq, whas = u.Path, u.RawQuery+path, true
			if hasQuery {
				wq += "?" + query
			}
		}
		if norm(up) != norm(wp) {
			return show("the path changes on the way")
		}
		if escape.Replace(uq) != escape.Replace(wq) || uhas != whas {
			return show("the query changes on the way")
		}
	}
	skip := map[string]bool{}
	hs := headers[q.Headers]
	var sent [][2]string
	for i := 0; i < len(hs); i += 2 {
		sent = append(sent, [2]string{hs[i], hs[i+1]})
	}
	if two { // which has one cookie header only
		var ck []string
		var rest [][2]string
		for _, x := range sent {
			if strings.EqualFold(x[0], "cookie") {
				ck = append(ck, x[1])
			} else {
				rest = append(rest, x)
			}
		}
		if sent = rest; ck != nil {
			sent = append(sent, [2]string{"Cookie", strings.Join(ck, "; ")})
		}
	}
	w := values(sent, nil)
	for _, k := range []string{"accept-encoding", "user-agent"} { // the proxy's own when the client has none
		if _, ok := w[k]; !ok {
			skip[k] = true
		}
	}
	if g := values(c.hdr, skip); fmt.Sprint(g) != fmt.Sprint(w) {
		return show(fmt.Sprintf("the headers change on the way\ngot  %v\nsent %v", g, w))
	}
	if !c.whole || !bytes.Equal(c.body, bodies[q.Body].data) {
		return show("the body changes on the way")
	}
	return "forwarded", ""
}

func hex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func run(ctx *h.Ctx) func(Case) h.Outcome {
	return func(c Case) h.Outcome {
		w := cache[c.Site]
		if w == nil {
			w = newWorld(ctx, c.Site)
			cache[c.Site] = w
		}
		var o h.Outcome
		var conn net.Conn
		var br *bufio.Reader
		for i, q := range c.Reqs {
			w.mu.Lock()
			w.got = nil
			w.mu.Unlock()
			if c.Two {
				k, err := h.NewH2(w.front.Dial("10.0.0.1:7777"), 20*time.Second)
				if err != nil {
					panic(err)
				}
				a := k.Do(q.fields())
				k.Conn.Close()
				w.mu.Lock()
				got := append([]*contact{}, w.got...)
				w.mu.Unlock()
				cl, bad := judge(c.Site, q, c.Two, a, got)
				if o.Class = "HTTP/2: " + cl; bad != "" {
					return h.Outcome{Class: cl, Bad: "HTTP/2: " + bad, Key: "HTTP/2: " + strings.SplitN(bad, "\n", 2)[0]}
				}
				continue
			}
			if conn == nil {
				conn = w.front.Dial("10.0.0.1:7777")
				br = bufio.NewReader(conn)
			}
			conn.SetDeadline(time.Now().Add(20 * time.Second))
			go io.WriteString(conn, q.raw())
			a := h.ReadAnswer(br, methods[q.Method])
			if a.Err != nil || a.Header.Get("Connection") == "close" {
				conn.Close()
				conn = nil
			}
			w.mu.Lock()
			got := append([]*contact{}, w.got...)
			w.mu.Unlock()
			cl, bad := judge(c.Site, q, c.Two, a, got)
			if bad != "" {
				return h.Outcome{Class: cl, Bad: bad, Key: strings.SplitN(bad, "\n", 2)[0]}
			}
			o.Class = cl
			if i > 0 {
				o.Class = "sequence"
			}
		}
		if conn != nil {
			conn.Close()
		}
		o.Sig, o.Transitions, o.States = fmt.Sprint(c), len(c.Reqs), len(c.Reqs)+1
		last := c.Reqs[len(c.Reqs)-1]
		o.Sample = fmt.Sprintf("%s %s (Host: %s) -> %s", methods[last.Method], targets[last.Target], hosts[last.Host], o.Class)
		return o
	}
}

func cut(ctx *h.Ctx) func(CutCase) h.Outcome {
	return func(c CutCase) h.Outcome {
		w := cache[0]
		if w == nil {
			w = newWorld(ctx, 0)
			cache[0] = w
		}
		w.got = nil
		raw := c.Req.raw()
		conn := w.front.Dial("10.0.0.1:7777")
		go io.Copy(io.Discard, conn)
		io.WriteString(conn, raw[:c.At])
		conn.Close()
		w.front.Drained()
		w.mu.Lock()
		defer w.mu.Unlock()
		if len(w.got) > 0 {
			return h.Outcome{Class: "forwarded", Bad: fmt.Sprintf("an incomplete request reaches the upstream\n%q: the client goes away after %q; upstream gets %q with body %q", raw, raw[:c.At], w.got[0].line, w.got[0].body)}
		}
		return h.Outcome{Class: "not forwarded", Sig: fmt.Sprint(c)}
	}
}

// --- concurrent requests

type stub struct {
	mu  sync.Mutex
	got []string
}

func (s *stub) RoundTrip(r *http.Request) (*http.Response, error) {
	var l []string
	for k, v := range r.Header {
		l = append(l, fmt.Sprint(k, v))
	}
	sort.Strings(l)
	vsched.P(-1)
	b, _ := io.ReadAll(r.Body)
	id := fmt.Sprintf("%s %s host=%s %v body=%q", r.Method, r.URL, r.Host, l, b)
	s.mu.Lock() // no scheduling point while held
	s.got = append(s.got, id)
	s.mu.Unlock()
	vsched.P(-1)
	return &http.Response{StatusCode: 200, Header: http.Header{"X-Id": {id}}, Body: io.NopCloser(strings.NewReader("answer " + id))}, nil
}

type creq struct{ method, target, host, hdr, body, want string }

var creqs = []creq{
	{"POST", "/one?x=1", "a.test", "X-N: 1", "body-one", `POST http://up-a:81/one?x=1 host=a.test [Content-Length[8] X-N[1]] body="body-one"`},
	{"PUT", "/two", "b.test", "X-M: 2", "body-2", `PUT http://up-b/base/path/two host=b.test [Content-Length[6] X-M[2]] body="body-2"`},
	{"GET", "/three", "a.test", "X-N: 3", "", `GET http://up-a:81/three host=a.test [X-N[3]] body=""`},
}

func scenarios(ctx *h.Ctx) []h.Scenario {
	w := newWorld(ctx, 0)
	w.front.Stop()
	var out []h.Scenario
	for _, th := range [][]int{{0, 1}, {0, 2}, {0, 0}, {2, 1, 0}} {
		th := th
		name, bound := fmt.Sprint("requests ", th), 2
		if len(th) == 3 {
			bound = 1
		}
		out = append(out, h.Scenario{Name: name, Bound: bound, Race: 1, Make: func() ([]vsched.Body, func(), func() (string, string)) {
			st := &stub{}
			w.s.Transport = st
			recs := make([]*h.Rec, len(th))
			var bodies []vsched.Body
			for i, n := range th {
				i, q := i, creqs[n]
				bodies = append(bodies, vsched.Body{Name: q.target, F: func() {
					cl := ""
					if q.body != "" {
						cl = fmt.Sprintf("Content-Length: %d\r\n", len(q.body))
					}
					r, err := h.ParseRequest(fmt.Sprintf("%s %s HTTP/1.1\r\nHost: %s\r\n%s\r\n%s\r\n%s", q.method, q.target, q.host, q.hdr, cl, q.body), "10.0.0.1:1")
					if err != nil {
						panic(err)
					}
					recs[i] = h.NewRec()
					w.s.Router.ServeHTTP(recs[i], r)
				}})
			}
			return bodies, nil, func() (string, string) {
				for i, n := range th {
					want := creqs[n].want
					if recs[i].Status() != 200 || string(recs[i].Body) != "answer "+want || recs[i].H.Get("X-Id") != want {
						return "mixed up", fmt.Sprintf("concurrent requests are mixed up\nrequest %+v\nanswer %d %q\nupstream got %q", creqs[n], recs[i].Status(), recs[i].Body, st.got)
					}
				}
				if len(st.got) != len(th) {
					return "lost", fmt.Sprintf("concurrent requests are lost or repeated\nupstream got %q", st.got)
				}
				return fmt.Sprint(st.got), ""
			}
		}})
	}
	return out
}

func main() {
	h.Main("C13", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is a site with one or two raw requests sent over a client connection, or one schedule of concurrent requests; distinct = different cases, or orders of arrival at the upstreams"
		h.Schedules(ctx, 2, scenarios(ctx))
		if vsched.RaceEnabled {
			return
		}
		r := run(ctx)
		two := false
		one := func(y func(Case) bool, ms, ts, hs, hd, bd []int) bool {
			for si := range sites {
				for _, m := range ms {
					for _, t := range ts {
						for _, ho := range hs {
							for _, x := range hd {
								for _, b := range bd {
									if !y(Case{si, []Rq{{m, t, ho, x, b}}, two}) {
										return false
									}
								}
							}
						}
					}
				}
			}
			return true
		}
		all := func(n int) (l []int) {
			for i := 0; i < n; i++ {
				l = append(l, i)
			}
			return
		}
		T, H := all(nTargets), all(nHosts)
		h.Enumerate(ctx, "targets", func(y func(Case) bool) { one(y, all(len(methods)), T, H, []int{0, 1}, []int{0, 2}) }, r)
		h.Enumerate(ctx, "headers and bodies", func(y func(Case) bool) {
			hs := []int{0, 1, 4, 5}
			ts := []int{0, 3, 8, 14, 19, 20, 22, 32, 36, 42}
			if ctx.Thorough() {
				hs, ts = H, T
			}
			one(y, all(len(methods)), ts, hs, all(nHeaders), all(nBodies))
		}, r)
		h.Enumerate(ctx, "each header", func(y func(Case) bool) {
			one(y, []int{0, 1}, []int{1}, []int{0, 1}, all(len(headers))[nHeaders:], []int{0})
		}, r)
		h.Enumerate(ctx, "large bodies", func(y func(Case) bool) {
			one(y, []int{1, 3}, []int{1}, []int{0}, []int{0}, all(len(bodies))[nBodies:])
		}, r)
		two = true
		h.Enumerate(ctx, "HTTP/2 targets", func(y func(Case) bool) {
			one(y, all(len(methods)), all(len(targets)), all(len(hosts)), []int{0, 1}, []int{0, 2})
		}, r)
		h.Enumerate(ctx, "HTTP/2 headers and bodies", func(y func(Case) bool) {
			one(y, []int{0, 1, 2}, []int{0, 3, 8, 22}, []int{0, 1}, all(len(headers)), all(nBodies))
			one(y, []int{1, 3}, []int{1}, []int{0}, []int{0}, all(len(bodies))[nBodies:])
		}, r)
		two = false
		h.Enumerate(ctx, "sequences", func(y func(Case) bool) {
			var base []Rq
			for _, t := range []int{1, 3, 8, 32, 42} {
				for _, ho := range []int{0, 1, 5} {
					base = append(base, Rq{0, t, ho, 1, 0}, Rq{1, t, ho, 2, 2}, Rq{3, t, ho, 0, 5})
				}
			}
			for si := range sites {
				for _, a := range base {
					for _, b := range base {
						if !y(Case{Site: si, Reqs: []Rq{a, b}}) {
							return
						}
						if ctx.Thorough() {
							for _, d := range base[:12] {
								if !y(Case{Site: si, Reqs: []Rq{a, b, d}}) {
									return
								}
							}
						}
					}
				}
			}
		}, r)
		h.Enumerate(ctx, "cut requests", func(y func(CutCase) bool) {
			for _, q := range []Rq{{0, 1, 0, 0, 0}, {1, 1, 0, 0, 2}, {1, 3, 0, 0, 5}, {3, 1, 1, 2, 2}, {1, 1, 0, 7, 2}} {
				for at := range q.raw() {
					if !y(CutCase{q, at}) {
						return
					}
				}
			}
		}, cut(ctx))
		ctx.Bound("%d methods x %d targets x %d host headers x %d header sets x %d bodies (reduced products), 2 sites; %d header names alone; bodies of %d sizes up to 33 MiB; all pairs of 45 requests on one connection; 5 requests cut at every byte", len(methods), len(targets), len(hosts), nHeaders, nBodies, len(names), len(sizes))
		ctx.Assume("paths are compared with every segment percent-decoded", "headers of the connection itself (Connection, Content-Length, Transfer-Encoding, Expect) may differ; Accept-Encoding and User-Agent may be the proxy's own when the client sends none")
	})
}
