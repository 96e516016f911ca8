// C18: error answers. Every way a request can be refused or fail, under every configuration of custom error
// pages (and pages that are missing, unreadable, empty, large), alone and with virtual hosts.
package main

import (
	"errors"
	"fmt"
	"io"
	"mime"
	"net/http"
	"os"
	"strconv"
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"verif/h"
)

// Case is a configuration; every request of the alphabet is asked twice.
type Case struct {
	Kinds    []string // kind of each site
	Vhost    bool
	Pages    []map[string]string // per site: status -> kind of page; the last one is the main configuration's when Vhost
	Template bool                // the operator changed the page template
}

// HistCase is a history of changes to an error page.
type HistCase struct {
	Vhost bool
	Ops   []int
}

var big = strings.Repeat("0123456789abcdef", 70000)

// page kinds -> file name and content
var pageFile = map[string][2]string{"html": {"err.html", "<p>my <b>page</b> {{.HTTPError}}"}, "html2": {"sub dir/x.HTM", "other page"}, "txt": {"err.txt", "plain"}, "json": {"err.json", `{"error":true}`}, "noext": {"err", "<html>sniffed"},
	"missing": {"gone.html", ""}, "dir": {"d.html", ""}, "locked": {"locked.html", "LOCKED"}, "empty": {"empty.html", ""}, "big": {"big.bin", big}}

var pageType = map[string]string{"html": "text/html", "html2": "text/html", "txt": "text/plain", "json": "application/json", "empty": "text/html"}

type upstream struct{}

func (upstream) RoundTrip(r *http.Request) (*http.Response, error) {
	if r.Body != nil {
		io.Copy(io.Discard, r.Body)
	}
	switch {
	case strings.Contains(r.URL.Path, "dead"):
		return nil, errors.New("no upstream at 10.1.2.3:99 zq7")
	case strings.Contains(r.URL.Path, "bad"):
		return &http.Response{StatusCode: 42, ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"x/up"}}, Body: io.NopCloser(strings.NewReader("zq7")), Request: r}, nil
	}
	return &http.Response{StatusCode: 200, ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("up")), Request: r}, nil
}

type ask struct {
	method, target string
	hdr            []string
	remote         string
	code           map[string]int // by site kind; 0: not asked
	brokenBody     bool
}

func k(a, b, c int) map[string]int { return map[string]int{"serve": a, "download": b, "proxy": c} }

var asks = []ask{
	{method: "GET", target: "/none-zq7", code: k(404, 404, 0)},
	{method: "GET", target: "/../zq7/x?zq7=<b>", code: k(404, 404, 0)},
	{method: "HEAD", target: "/none-zq7", code: k(404, 405, 0)},
	{method: "GET", target: "/dir/", code: k(404, 404, 0)},
	{method: "DELETE", target: "/zq7", code: k(405, 405, 405)},
	{method: "PUT", target: "/", code: k(405, 405, 405)},
	{method: "ZQ7", target: "/", code: k(405, 405, 405)},
	{method: "GET", target: "/", hdr: []string{"Content-Type", "zq7/x"}, code: k(406, 406, 0)},
	{method: "GET", target: "/secret/zq7", remote: "10.0.0.66:1", code: k(403, 403, 403)},
	{method: "GET", target: "/", remote: "10.0.0.77:1", code: k(429, 429, 429)},
	{method: "POST", target: "/", remote: "10.0.0.66:1", code: k(405, 405, 403)},
	{method: "GET", target: "/locked.txt", code: k(403, 403, 0)},
	{method: "GET", target: "/metrics?zq7", code: k(401, 401, 401)},
	{method: "GET", target: "/metrics", hdr: []string{"Authorization", "Basic zq7"}, code: k(401, 401, 401)},
	{method: "POST", target: "/metrics", code: k(405, 405, 405)},
	{method: "GET", target: "/dead/zq7", code: k(0, 0, 502)},
	{method: "GET", target: "/bad/zq7", code: k(0, 0, 502)},
	{method: "POST", target: "/x", code: k(0, 0, 502), brokenBody: true},
}

type site struct {
	hd    http.Handler
	dir   string
	hosts []string
}

func pagePath(dir, kind string) string { return dir + "/pages/" + pageFile[kind][0] }

func build(ctx *h.Ctx, c Case) *site {
	dir := ctx.Dir("s")
	h.Put(dir+"/www/index.html", "INDEX")
	h.Put(dir+"/www/locked.txt", "zq7 locked")
	os.Chmod(dir+"/www/locked.txt", 0)
	os.Mkdir(dir+"/www/dir", 0o755)
	for kd, p := range pageFile {
		switch kd {
		case "missing":
		case "dir":
			os.MkdirAll(dir+"/pages/"+p[0], 0o755)
		default:
			h.Put(dir+"/pages/"+p[0], p[1])
		}
	}
	os.Chmod(pagePath(dir, "locked"), 0)
	if c.Template {
		h.Put(dir+"/templates/error.html", "[[T1]]{{.HTTPError}}[[T2]]")
	}
	core := h.MetricsCore(h.Core(dir), dir)
	core["LogOut"] = "/dev/null"
	cfg := h.M{"Core": core}
	hosts := []string{"a.test", "b.test"}[:len(c.Kinds)]
	errs := func(m map[string]string) h.M {
		o := h.M{}
		for st, kd := range m {
			o[st] = pagePath(dir, kd)
		}
		return o
	}
	sec := func(i int) h.M {
		s := h.M{"Guard": h.M{"Rate": 0.001, "RateBurst": 150, "FilterOnIP": true, "Firewall": h.M{"Enabled": true, "Blacklisting": true, "Rules": h.M{"/": []string{"10.0.0.66"}}}}}
		if len(c.Pages[i]) > 0 {
			s["Errors"] = errs(c.Pages[i])
		}
		switch c.Kinds[i] {
		case "serve":
			s["Serve"] = h.M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Methods": h.M{"/": "GET;HEAD"}}
		case "download":
			s["Serve"] = h.M{"ServeDir": dir + "/www", "ServeIndex": "/list", "Download": h.M{"Enabled": true, "Exts": []string{".x"}}}
		case "proxy":
			s["Proxy"] = h.M{"Enabled": true, "Methods": []string{"GET", "POST"}, "Rules": h.M{hosts[i]: "http://up.test"}}
		}
		return s
	}
	if c.Vhost {
		vh := h.M{}
		for i := range c.Kinds {
			vh[hosts[i]] = h.PutJSON(fmt.Sprintf("%s/v%d.json", dir, i), sec(i))
		}
		core["VirtualHosting"], core["VirtualHosts"] = true, vh
		if m := c.Pages[len(c.Kinds)]; len(m) > 0 {
			cfg["Errors"] = errs(m)
		}
	} else {
		for a, b := range sec(0) {
			cfg[a] = b
		}
	}
	sv := h.Server(dir, cfg)
	sv.Transport = upstream{}
	s := &site{sv.Router, dir, hosts}
	// use up the allowance of one client
	for i, hst := range hosts {
		t := "/"
		if c.Kinds[i] == "download" {
			t = "/list"
		}
		for n := 0; n < 150; n++ {
			s.hd.ServeHTTP(h.NewRec(), h.Req("GET", t, hst, "10.0.0.77:1"))
		}
	}
	return s
}

type brokenBody struct{}

func (brokenBody) Read([]byte) (int, error) { return 0, errors.New("client gone") }
func (brokenBody) Close() error             { return nil }

// judge checks one error answer: page is the configured kind ("" none).
func judge(w *resp, code int, page, content string, head, template bool) string {
	if w.pan != "" {
		return "a request panics instead of being answered\n" + w.pan
	}
	if w.code != code {
		return fmt.Sprintf("an error has the wrong status\n%d, must be %d", w.code, code)
	}
	if head {
		return ""
	}
	mt, _, _ := mime.ParseMediaType(w.hd.Get("Content-Type"))
	switch page {
	case "", "missing", "dir", "locked":
		if mt != "text/html" || !strings.Contains(w.body, "Error "+strconv.Itoa(code)) {
			return "the default error page does not name the status\n" + mt
		}
		a, b := "<!doctype html>", "</html>"
		if template {
			a, b = "[[T1]]", "[[T2]]"
		}
		if !strings.HasPrefix(strings.TrimSpace(w.body), a) || !strings.HasSuffix(strings.TrimSpace(w.body), b) || strings.Contains(w.body, "&lt;h3") {
			return "the default error page is not complete"
		}
	default:
		if w.body != content {
			return fmt.Sprintf("the configured error page is not sent as it is\nmust be %d bytes %.80q", len(content), content)
		}
		if t := pageType[page]; t != "" && mt != t || mt == "" && page != "empty" {
			return "a configured error page has the wrong media type\n" + mt
		}
	}
	if strings.Contains(w.body, "zq7") || strings.Contains(w.body, "/metrics") || strings.Contains(w.body, ".test") || strings.Contains(w.body, "10.0.0.") {
		return "an error page shows something of the request or of the failure"
	}
	return ""
}

type resp struct {
	code int
	hd   http.Header
	body string
	pan  string
}

func (s *site) do(a ask, host string) *resp {
	rem := a.remote
	if rem == "" {
		rem = "10.0.0.1:1"
	}
	r := h.Req(a.method, a.target, host, rem, append([]string{"User-Agent", "zq7", "Referer", "http://zq7.test/zq7", "Cookie", "zq7=zq7", "X-Forwarded-For", "zq7", "Accept-Language", "zq7"}, a.hdr...)...)
	if a.brokenBody {
		r.Body = brokenBody{}
	}
	w, pan := h.Serve(s.hd, r)
	return &resp{w.Code, w.Result().Header, w.Body.String(), pan}
}

func run(ctx *h.Ctx) func(Case) h.Outcome {
	return func(c Case) h.Outcome {
		s := build(ctx, c)
		defer ctx.Remove(s.dir)
		n := 0
		cnt := map[string]int{}
		for round := 0; round < 2; round++ {
			for i, kd := range c.Kinds {
				for _, a := range asks {
					code := a.code[kd]
					if code == 0 {
						continue
					}
					page := c.Pages[i][strconv.Itoa(code)]
					w := s.do(a, s.hosts[i]+":8443")
					n++
					if page == "" {
						cnt["default"]++
					} else {
						cnt[page]++
					}
					if bad := judge(w, code, page, pageFile[page][1], a.method == "HEAD", c.Template); bad != "" {
						if len(w.body) > 300 {
							w.body = w.body[:100] + " ... " + w.body[len(w.body)-200:]
						}
						return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\n%s %s %q from %q at %s site %s: %d %v %q\nconfigured page %q\nconfiguration %+v", bad, a.method, a.target, a.hdr, a.remote, kd, s.hosts[i], w.code, w.hd, w.body, page, c)}
					}
				}
			}
			if c.Vhost {
				page := c.Pages[len(c.Kinds)]["404"]
				for _, hst := range []string{"c.test", "test", "xa.test"} {
					w := s.do(ask{method: "GET", target: "/zq7"}, hst)
					n++
					if bad := judge(w, 404, page, pageFile[page][1], false, c.Template); bad != "" {
						return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\nGET / of unknown host %s: %d %v %.300q\nconfigured page %q\nconfiguration %+v", bad, hst, w.code, w.hd, w.body, page, c)}
					}
				}
			}
		}
		return h.Outcome{Class: fmt.Sprint(len(c.Kinds), " sites"), Sig: fmt.Sprint(c), States: n, Transitions: n, Sample: fmt.Sprintf("%+v: error pages %v", c, cnt)}
	}
}

var changes = []string{"one", "two", "", "remove", "dir", "locked"}

func history(ctx *h.Ctx) func(HistCase) h.Outcome {
	return func(c HistCase) h.Outcome {
		cs := Case{Kinds: []string{"serve"}, Vhost: c.Vhost, Pages: []map[string]string{{"404": "html"}, {"404": "txt"}}}
		s := build(ctx, cs)
		defer ctx.Remove(s.dir)
		p := pagePath(s.dir, "html")
		for i, o := range c.Ops {
			os.Chmod(p, 0o755)
			os.RemoveAll(p)
			page, content := "html", changes[o]
			switch changes[o] {
			case "remove":
				page = "missing"
			case "dir":
				os.Mkdir(p, 0o755)
				page = "dir"
			case "locked":
				h.Put(p, "zq7")
				os.Chmod(p, 0)
				page = "locked"
			default:
				h.Put(p, content)
			}
			for k := 0; k < 2; k++ {
				w := s.do(asks[0], "a.test")
				if bad := judge(w, 404, page, content, false, false); bad != "" {
					return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\nafter change %d of %v: %d %v %.300q", bad, i+1, c.Ops, w.code, w.hd, w.body)}
				}
			}
		}
		return h.Outcome{Class: fmt.Sprint(len(c.Ops), " changes"), Sig: fmt.Sprint(c), States: len(c.Ops), Transitions: 3 * len(c.Ops)}
	}
}

// LibCase is a program that makes its own server and routes with the tuna package.
type LibCase struct {
	Code     int
	Page     string
	Vhost    bool
	Template bool
}

func library(ctx *h.Ctx) func(LibCase) h.Outcome {
	return func(c LibCase) h.Outcome {
		dir := ctx.Dir("lib")
		defer ctx.Remove(dir)
		st := strconv.Itoa(c.Code)
		h.Put(dir+"/www/index.html", "INDEX")
		if c.Page != "" && c.Page != "missing" {
			h.Put(pagePath(dir, c.Page), pageFile[c.Page][1])
		}
		if c.Template {
			h.Put(dir+"/templates/error.html", "[[T1]]{{.HTTPError}}[[T2]]")
		}
		errs := map[string]string{}
		if c.Page != "" {
			errs[st] = pagePath(dir, c.Page)
		}
		cfg := tuna.NewConfig()
		cfg.Core.Address, cfg.Core.Port, cfg.Core.FileDir, cfg.Core.LogOut = "127.0.0.1", "0", dir+"/", "/dev/null"
		if c.Vhost {
			cfg.Core.VirtualHosting = true
			cfg.Core.VirtualHosts = map[string]string{"a.test": h.PutJSON(dir+"/v.json", h.M{"Errors": errs, "Serve": h.M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Methods": h.M{"/": "GET"}}})}
		}
		sv := tuna.NewInstance(cfg.Core)
		if !c.Vhost {
			sv.Cfg.Errors = errs
		}
		fail := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { sv.HandleError(w, r, c.Code) })
		sv.Router.AddRoute("a.test", "/zq7", false, "GET", "*", fail)
		sv.Router.AddRoute("a.test", "/zq7/t", false, "GET", "x/y", fail)
		s := &site{hd: sv.Router}
		n := 0
		for round := 0; round < 2; round++ {
			for _, a := range []struct {
				ask
				want int
			}{{ask{method: "GET", target: "/zq7?zq7"}, c.Code}, {ask{method: "GET", target: "/zq7/none"}, 404}, {ask{method: "GET", target: "/none"}, 404}, {ask{method: "DELETE", target: "/zq7"}, 405}, {ask{method: "GET", target: "/zq7/t", hdr: []string{"Content-Type", "zq7/zq7"}}, 406}} {
				for _, hst := range []string{"a.test", "a.test:8443", "b.test"} {
					want, page := a.want, ""
					if hst == "b.test" {
						want = 404
					}
					if want == c.Code && (hst != "b.test" || !c.Vhost) {
						page = c.Page
					}
					w := s.do(a.ask, hst)
					n++
					if bad := judge(w, want, page, pageFile[page][1], false, c.Template); bad != "" {
						return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\nserver made with NewInstance, %+v, %s %s of %s: %d %v %.300q", bad, c, a.method, a.target, hst, w.code, w.hd, w.body)}
					}
				}
			}
		}
		return h.Outcome{Class: "own routes", Sig: fmt.Sprint(c), States: n, Transitions: n}
	}
}

func main() {
	h.Main("C18", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is a configuration of sites and error pages, asked every failing request twice, or a history of changes to a page; distinct = different configurations or histories"
		kinds := []string{"serve", "download", "proxy"}
		pages := []string{"html", "html2", "txt", "json", "noext", "missing", "dir", "locked", "empty", "big"}
		codes := []string{"401", "403", "404", "405", "406", "429", "502"}
		r := run(ctx)
		h.Enumerate(ctx, "one page", func(y func(Case) bool) {
			for _, kd := range kinds {
				for _, v := range []bool{false, true} {
					for _, tp := range []bool{false, true} {
						if !y(Case{[]string{kd}, v, []map[string]string{{}, {}}, tp}) {
							return
						}
						for _, cd := range append([]string{"500", "200", "4040"}, codes...) {
							for _, p := range pages {
								if !y(Case{[]string{kd}, v, []map[string]string{{cd: p}, {}}, tp}) {
									return
								}
							}
						}
					}
				}
			}
		}, r)
		h.Enumerate(ctx, "two pages", func(y func(Case) bool) {
			two := []string{"html", "txt", "missing", "locked"}
			for _, kd := range kinds {
				for i, c1 := range codes {
					for _, c2 := range codes[i+1:] {
						for _, p1 := range two {
							for _, p2 := range two {
								if !y(Case{[]string{kd}, (len(p1)+len(p2))%2 == 0, []map[string]string{{c1: p1, c2: p2}, {c1: p2}}, false}) {
									return
								}
							}
						}
					}
				}
			}
		}, r)
		h.Enumerate(ctx, "virtual hosts", func(y func(Case) bool) {
			some := []string{"", "html", "txt", "missing"}
			if ctx.Thorough() {
				some = append([]string{""}, pages[:8]...)
			}
			m := func(cd, p string) map[string]string {
				if p == "" {
					return map[string]string{}
				}
				return map[string]string{cd: p}
			}
			for _, k1 := range kinds {
				for _, k2 := range kinds {
					for _, cd := range codes {
						for _, p1 := range some {
							for _, p2 := range some {
								for _, p3 := range some {
									if !y(Case{[]string{k1, k2}, true, []map[string]string{m(cd, p1), m(cd, p2), m(cd, p3)}, false}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, r)
		h.Enumerate(ctx, "histories", func(y func(HistCase) bool) {
			depth := 3
			if ctx.Thorough() {
				depth = 5
			}
			var rec func(x []int) bool
			rec = func(x []int) bool {
				if len(x) == depth {
					return y(HistCase{false, x}) && y(HistCase{true, x})
				}
				for o := range changes {
					if !rec(append(x[:len(x):len(x)], o)) {
						return false
					}
				}
				return true
			}
			rec(nil)
		}, history(ctx))
		h.Enumerate(ctx, "own programs", func(y func(LibCase) bool) {
			for code := 400; code < 600; code++ {
				for _, p := range []string{"", "html", "missing"} {
					for b := 0; b < 4; b++ {
						if !y(LibCase{code, p, b&1 != 0, b&2 != 0}) {
							return
						}
					}
				}
			}
		}, library(ctx))
		ctx.Bound("%d kinds of error pages (also missing, unreadable, a directory, empty, 1 MB) for every status, alone, in pairs and on pairs of virtual hosts; %d failing requests of 3 kinds of sites, each twice; histories of 3 (thorough 5) changes of a page", len(pages), len(asks))
		ctx.Assume("the upstream of proxied requests is replaced by a stand-in that fails as asked", "an error of a host that is no virtual host is the main configuration's")
	})
}
