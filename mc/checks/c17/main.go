// C17: response headers. Every kind of answer of every kind of site, under every policy of an alphabet
// (transport security, configured headers, virtual hosts), is compared with the headers it must carry.
package main

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"sort"
	"strings"

	"verif/h"
)

// Site is one site.
type Site struct {
	Kind    string // serve, download, proxy
	Headers int    // index in headerSets
}

// Case is a configuration; it is asked every request twice.
type Case struct {
	TLS        int // index in tlsSets
	Sites      []Site
	Vhost      bool
	Main       int  // headers of the main configuration when virtual hosts are on
	Back       bool // requests in reverse order
	ProxyOther bool // the serve part of a proxy site has headers of its own, and the reverse
}

var headerSets = []map[string]string{
	nil,
	{},
	{"X-Frame-Options": "DENY"},
	{"x-content-type-options": "other", "server": "nginx"},
	{"Content-Security-Policy": "default-src 'self' https://cdn.test; img-src *", "Feature-Policy": "", "X-One": "1"},
	{"X-Two": "2", "X-XSS-Protection": "0", "Referrer-Policy": "origin", "Server": ""},
	{"Strict-Transport-Security": "max-age=7"},
	{"Set-Cookie": "site=1", "Cache-Control": "no-store", "X-Up": "from config", "Access-Control-Allow-Origin": "*"},
	{"X-Frame-Options": "ALLOW", "X-Content-Type-Options": "a", "X-XSS-Protection": "b", "Referrer-Policy": "c", "Content-Security-Policy": "d", "Feature-Policy": "e", "Server": "f"},
}

type tlsSet struct {
	on        bool
	hsts      h.M
	age       string
	sub, load bool
}

var tlsSets = []tlsSet{
	{},
	{on: true, age: "31557600"},
	{on: true, hsts: h.M{"MaxAge": 1}, age: "1"},
	{on: true, hsts: h.M{"MaxAge": 0, "IncludeSubdomains": true}, age: "0", sub: true},
	{on: true, hsts: h.M{"Preload": true}, age: "31557600", load: true},
	{on: true, hsts: h.M{"MaxAge": 63072000, "Preload": true, "IncludeSubdomains": true}, age: "63072000", sub: true, load: true},
	{hsts: h.M{"MaxAge": 5, "Preload": true, "IncludeSubdomains": true}},
}

var strict = map[string]string{
	"X-Frame-Options": "SAMEORIGIN", "X-Content-Type-Options": "nosniff", "X-Xss-Protection": "1; mode=block", "Referrer-Policy": "no-referrer",
	"Content-Security-Policy": "default-src 'self'", "Server": "MaguroHTTP",
	"Feature-Policy": "geolocation 'none'; midi 'none'; notifications 'none'; push 'none'; sync-xhr 'none'; microphone 'none'; camera 'none'; magnetometer 'none'; gyroscope 'none'; speaker 'none'; vibrate 'none'; fullscreen 'none'; payment 'none';",
}

var upHeader = http.Header{"Content-Type": {"text/x-up"}, "X-Frame-Options": {"UP"}, "Server": {"up/1"}, "Set-Cookie": {"a=1", "b=2"}, "X-Up": {"one", "two"},
	"Strict-Transport-Security": {"max-age=99"}, "Content-Security-Policy": {"default-src up"}, "Etag": {"\"x\""}, "Referrer-Policy": {"up"}}

type upstream struct{}

func (upstream) RoundTrip(r *http.Request) (*http.Response, error) {
	if r.Body != nil {
		io.Copy(io.Discard, r.Body)
	}
	if strings.Contains(r.URL.Path, "dead") {
		return nil, errors.New("no upstream")
	}
	code := 200
	if strings.Contains(r.URL.Path, "teapot") {
		code = 418
	}
	return &http.Response{StatusCode: code, ProtoMajor: 1, ProtoMinor: 1, Header: upHeader.Clone(), Body: io.NopCloser(strings.NewReader("up")), Request: r}, nil
}

type reqt struct {
	method, target string
	hdr            []string
	remote         string
	kind           map[string]string // by site kind: file, list, error, proxied, metrics, skip
}

func k(serve, download, proxy string) map[string]string {
	return map[string]string{"serve": serve, "download": download, "proxy": proxy}
}

var reqs = []reqt{
	{"GET", "/", nil, "", k("file", "list", "proxied")},
	{"GET", "/a.txt", nil, "", k("file", "file", "proxied")},
	{"HEAD", "/a.txt", nil, "", k("file", "error", "proxied")},
	{"GET", "/a.txt", []string{"Range", "bytes=1-2"}, "", k("file", "file", "proxied")},
	{"GET", "/a.txt", []string{"If-Modified-Since", "Fri, 01 Jan 2100 00:00:00 GMT"}, "", k("file", "file", "proxied")},
	{"GET", "/list", nil, "", k("error", "list", "proxied")},
	{"GET", "/none", nil, "", k("error", "error", "proxied")},
	{"GET", "/dead", nil, "", k("error", "error", "error")},
	{"GET", "/teapot", nil, "", k("error", "error", "proxied")},
	{"POST", "/a.txt", nil, "", k("error", "error", "error")},
	{"GET", "/a.txt", []string{"Content-Type", "x/y"}, "", k("error", "error", "proxied")},
	{"GET", "/a.txt", nil, "10.0.0.66:1", k("error", "error", "error")},
	{"GET", "/metrics", nil, "", k("error", "error", "error")},
	{"GET", "/metrics", []string{"Authorization", h.MetricsAuth}, "", k("metrics", "metrics", "metrics")},
	{"GET", "/sub", nil, "", k("file", "error", "proxied")},
}

func section(dir string, s Site, c Case) h.M {
	sec := h.M{"Guard": h.M{"Rate": 1, "RateBurst": 24, "FilterOnIP": true, "Firewall": h.M{"Enabled": true, "Blacklisting": true, "Rules": h.M{"/": []string{"10.0.0.66"}}}}}
	hs, other := headerSets[s.Headers], map[string]string{"X-Wrong": "1", "X-Frame-Options": "WRONG"}
	serve := h.M{"ServeDir": dir + "/www/", "ServeIndex": "index.html", "Methods": h.M{"/": "GET;HEAD"}}
	proxy := h.M{}
	switch s.Kind {
	case "serve":
		serve["Headers"] = hs
		if c.ProxyOther {
			proxy["Headers"] = other
		}
	case "download":
		serve["Headers"], serve["Download"], serve["ServeIndex"] = hs, h.M{"Enabled": true, "Exts": []string{".txt"}}, "/list"
	case "proxy":
		proxy["Enabled"], proxy["Methods"], proxy["Headers"] = true, []string{"GET", "HEAD"}, hs
		if c.ProxyOther {
			serve["Headers"] = other
		}
	}
	for _, m := range []h.M{serve, proxy} {
		if x, ok := m["Headers"].(map[string]string); ok && x == nil {
			delete(m, "Headers")
		}
	}
	sec["Serve"], sec["Proxy"] = serve, proxy
	return sec
}

func run(ctx *h.Ctx) func(Case) h.Outcome {
	return func(c Case) h.Outcome {
		dir := ctx.Dir("s")
		defer ctx.Remove(dir)
		h.Put(dir+"/www/index.html", "INDEX")
		h.Put(dir+"/www/a.txt", "A-FILE")
		os.Mkdir(dir+"/www/sub", 0o755)
		h.Put(dir+"/www/sub/index.html", "SUB")
		core := h.Core(dir)
		core["LogOut"] = "/dev/null"
		ts := tlsSets[c.TLS]
		tls := h.M{"Enabled": ts.on, "TLSCert": dir + "/c", "TLSKey": dir + "/k"}
		if ts.hsts != nil {
			tls["HSTS"] = ts.hsts
		}
		core["TLS"] = tls
		core["Metrics"] = h.M{"Enabled": true, "Path": "/metrics", "Out": dir + "/m.json", "Users": h.M{"u": "p"}}
		cfg := h.M{"Core": core}
		hosts := []string{"a.test", "b.test"}[:len(c.Sites)]
		if c.Vhost {
			vh := h.M{}
			for i, s := range c.Sites {
				sec := section(dir, s, c)
				if s.Kind == "proxy" {
					sec["Proxy"].(h.M)["Rules"] = h.M{hosts[i]: "http://up.test"}
				}
				vh[hosts[i]] = h.PutJSON(fmt.Sprintf("%s/v%d.json", dir, i), sec)
			}
			core["VirtualHosting"], core["VirtualHosts"] = true, vh
			if m := headerSets[c.Main]; m != nil {
				cfg["Serve"], cfg["Proxy"] = h.M{"Headers": m}, h.M{"Headers": m}
			}
		} else {
			sec := section(dir, c.Sites[0], c)
			sec["Proxy"].(h.M)["Rules"] = h.M{"a.test": "http://up.test"}
			for a, b := range sec {
				cfg[a] = b
			}
		}
		sv := h.Server(dir, cfg)
		sv.Transport = upstream{}
		n := 0
		cnt := map[string]int{}
		order := append(append([]reqt{}, reqs...), reqs...)
		if c.Back {
			for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
				order[i], order[j] = order[j], order[i]
			}
		}
		for _, q := range order {
			for i, s := range c.Sites {
				rem := q.remote
				if rem == "" {
					rem = "10.0.0.1:1"
				}
				w, pan := h.Serve(sv.Router, h.Req(q.method, q.target, hosts[i]+":8443", rem, q.hdr...))
				n++
				hd := w.Result().Header
				kind := q.kind[s.Kind]
				if w.Code >= 400 && kind != "proxied" || w.Code == 429 {
					kind = "error"
				}
				cnt[kind]++
				if bad := judge(hd, kind, ts, headerSets[s.Headers]); bad != "" || pan != "" {
					return h.Outcome{Class: "differs", Key: strings.SplitN(bad, "\n", 2)[0], Bad: fmt.Sprintf("%s%s\n%s %s %q of %s site %s (%s answer, status %d)\nheaders %v\nconfiguration %+v tls %+v configured headers %q", bad, pan, q.method, q.target, q.hdr, s.Kind, hosts[i], kind, w.Code, hd, c, ts, headerSets[s.Headers])}
				}
			}
			if c.Vhost {
				// a host that is no virtual host
				w, _ := h.Serve(sv.Router, h.Req("GET", "/a.txt", "c.test", "10.0.0.1:1"))
				n++
				if bad := judge(w.Result().Header, "error", ts, nil); bad != "" {
					return h.Outcome{Class: "differs", Key: strings.SplitN(bad, "\n", 2)[0], Bad: fmt.Sprintf("%s\nGET of a host that is not configured\nheaders %v\nconfiguration %+v tls %+v", bad, w.Result().Header, c, ts)}
				}
			}
		}
		return h.Outcome{Class: fmt.Sprint(len(c.Sites), " sites"), Sig: fmt.Sprint(c), States: n, Transitions: n, Sample: fmt.Sprintf("%+v: answers %v", c, cnt)}
	}
}

// HdrCase is a request with one more header.
type HdrCase struct {
	Kind  string
	TLS   int
	Name  int
	Value string
}

var names = strings.Fields("A-IM Accept Accept-Charset Accept-Encoding Accept-Language Access-Control-Request-Headers Access-Control-Request-Method Authorization Cache-Control Connection Content-Encoding Content-Language Cookie Date DNT Early-Data ETag Expect Forwarded From Front-End-Https HTTP2-Settings If-Match If-Modified-Since If-None-Match If-Range If-Unmodified-Since Keep-Alive Last-Modified Max-Forwards Origin Pragma Prefer Priority Proxy-Authorization Proxy-Connection Purpose Range Referer Save-Data Sec-CH-UA Sec-Fetch-Dest Sec-Fetch-Mode Sec-Fetch-Site Sec-Fetch-User Sec-GPC Sec-WebSocket-Key Sec-WebSocket-Version Server Strict-Transport-Security TE Trailer Upgrade Upgrade-Insecure-Requests User-Agent Vary Via X-Content-Type-Options X-Debug X-Forwarded-For X-Forwarded-Host X-Forwarded-Proto X-Forwarded-SSL X-Frame-Options X-Http-Method-Override X-Original-URL X-Real-IP X-Requested-With X-Rewrite-URL X-Scheme X-XSS-Protection")

var hdrSites = map[string]struct {
	hd http.Handler
	n  int
}{}

func oneHeader(ctx *h.Ctx) func(HdrCase) h.Outcome {
	return func(c HdrCase) h.Outcome {
		key := fmt.Sprint(c.Kind, c.TLS)
		st, ok := hdrSites[key]
		if !ok {
			dir := ctx.Dir("h")
			h.Put(dir+"/www/index.html", "INDEX")
			h.Put(dir+"/www/a.txt", "A-FILE")
			core := h.Core(dir)
			core["LogOut"] = "/dev/null"
			core["TLS"] = h.M{"Enabled": tlsSets[c.TLS].on, "TLSCert": dir + "/c", "TLSKey": dir + "/k"}
			cfg := h.M{"Core": core}
			sec := section(dir, Site{c.Kind, 5}, Case{})
			sec["Proxy"].(h.M)["Rules"] = h.M{"a.test": "http://up.test"}
			for a, b := range sec {
				cfg[a] = b
			}
			sv := h.Server(dir, cfg)
			sv.Transport = upstream{}
			st.hd = sv.Router
		}
		st.n++
		hdrSites[key] = st
		cl := fmt.Sprintf("10.%d.%d.%d:1", 1+st.n>>16, st.n>>8&255, st.n&255)
		n := 0
		for _, q := range reqs {
			if q.remote != "" || strings.HasPrefix(q.target, "/metrics") {
				continue
			}
			hd := append(append([]string{}, q.hdr...), names[c.Name], c.Value)
			w, pan := h.Serve(st.hd, h.Req(q.method, q.target, "a.test", cl, hd...))
			n++
			kind := q.kind[c.Kind]
			if w.Code >= 400 && kind != "proxied" {
				kind = "error"
				if w.Code == 412 || w.Code == 416 {
					kind = "file" // a condition or range that fails
				}
			}
			if bad := judge(w.Result().Header, kind, tlsSets[c.TLS], headerSets[5]); bad != "" || pan != "" {
				return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s%s\n%s %s %q of a %s site (status %d)\nheaders %v", bad, pan, q.method, q.target, hd, c.Kind, w.Code, w.Result().Header)}
			}
		}
		return h.Outcome{Class: "as without the header", Sig: fmt.Sprint(c), States: n, Transitions: n}
	}
}

func hsts(v string) string {
	var d []string
	for _, x := range strings.Split(strings.ToLower(v), ";") {
		if x = strings.TrimSpace(x); x != "" {
			d = append(d, x)
		}
	}
	sort.Strings(d)
	return strings.Join(d, ";")
}

func judge(hd http.Header, kind string, ts tlsSet, conf map[string]string) string {
	want := map[string][]string{}
	if kind != "proxied" {
		for a, b := range strict {
			want[a] = []string{b}
		}
	} else {
		for a, b := range upHeader {
			want[a] = b
		}
	}
	if kind == "metrics" {
		delete(want, "Content-Security-Policy") // the page has inline styles
	}
	st := ""
	if ts.on {
		st = "max-age=" + ts.age
		if ts.sub {
			st += ";includesubdomains"
		}
		if ts.load {
			st += ";preload"
		}
		want["Strict-Transport-Security"] = []string{hsts(st)}
	}
	if kind == "file" || kind == "list" || kind == "proxied" {
		for a, b := range conf {
			want[http.CanonicalHeaderKey(a)] = []string{b}
		}
	}
	for a, b := range want {
		got := append([]string{}, hd[a]...)
		if a == "Strict-Transport-Security" {
			for i := range got {
				got[i] = hsts(got[i])
			}
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", b) {
			return fmt.Sprintf("a response lacks a header or has it with another value\n%s is %q, must be %q", a, hd[a], b)
		}
	}
	for a := range hd {
		switch a {
		case "Content-Type", "Content-Length", "Accept-Ranges", "Content-Range", "Last-Modified", "Date", "Location", "Www-Authenticate", "Content-Disposition", "Content-Security-Policy", "Connection":
			continue
		}
		if _, in := want[a]; !in {
			return fmt.Sprintf("a response has a header of another site or mode\n%s: %q", a, hd[a])
		}
	}
	return ""
}

func main() {
	h.Main("C17", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is a configuration answered for every kind of request twice; distinct = different configurations; every answer's headers are compared with the policy"
		r := run(ctx)
		kinds := []string{"serve", "download", "proxy"}
		h.Enumerate(ctx, "one site", func(y func(Case) bool) {
			for t := range tlsSets {
				for _, kd := range kinds {
					for hs := range headerSets {
						for _, v := range []bool{false, true} {
							for _, o := range []bool{false, true} {
								for _, b := range []bool{false, true} {
									if !y(Case{TLS: t, Sites: []Site{{kd, hs}}, Vhost: v, Main: (hs + 3) % len(headerSets), Back: b, ProxyOther: o}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, r)
		h.Enumerate(ctx, "any request header", func(y func(HdrCase) bool) {
			for _, kd := range kinds {
				for _, t := range []int{0, 1} {
					for i := range names {
						for _, v := range []string{"1", "", "bytes=0-0", "\"x\"", "*", "Fri, 01 Jan 2100 00:00:00 GMT", "Thu, 01 Jan 1970 00:00:00 GMT", "http://evil.test", "close", "gzip", "https", strings.Repeat("x", 3000)} {
							if !y(HdrCase{kd, t, i, v}) {
								return
							}
						}
					}
				}
			}
		}, oneHeader(ctx))
		h.Enumerate(ctx, "two sites", func(y func(Case) bool) {
			tl := []int{0, 5}
			mains := []int{0, 7}
			if ctx.Thorough() {
				tl, mains = []int{0, 1, 2, 3, 4, 5, 6}, []int{0, 2, 4, 5, 7, 8}
			}
			for _, t := range tl {
				for _, k1 := range kinds {
					for h1 := range headerSets {
						for _, k2 := range kinds {
							for h2 := range headerSets {
								for _, m := range mains {
									if !y(Case{TLS: t, Sites: []Site{{k1, h1}, {k2, h2}}, Vhost: true, Main: m, Back: (h1+h2)%2 == 1}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, r)
		ctx.Bound("%d transport-security settings x %d header sets x 3 site kinds, alone and in all pairs of virtual hosts, %d requests each asked twice in both orders", len(tlsSets), len(headerSets), len(reqs))
		ctx.Assume("the upstream of proxied requests is replaced by a stand-in with fixed headers", "Content-Type is decided by the file, the page or the upstream", "the metrics page may relax the content security policy for its own styles")
	})
}
