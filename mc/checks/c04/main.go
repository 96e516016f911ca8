// C04: firewall verdicts. Every rule set of an alphabet, both modes, both middleware functions, against every
// client and path, compared with the documented verdict.
package main

import (
	"crypto/tls"
	"fmt"
	"net/http"
	"net/url"
	"strings"

	"github.com/redmaner/MaguroHTTP/guard"
	"verif/h"
	"verif/ref"
)

// Case is one firewall.
type Case struct {
	Black, Subpath, Proxy bool
	Rules                 map[string][]string
}

var paths = []string{"/", "/a", "/a/", "/a/b", "/a/b/", "/a/b/c", "/a/b/c/d.html", "/ab", "/b", "/b/a", "/A", "/a/bb", "/a.b", "*", "", "a/b", "."}
var remotes = [][2]string{{"10.0.0.1:1234", "10.0.0.1"}, {"10.0.0.2:1", "10.0.0.2"}, {"[::1]:99", "::1"}, {"10.0.0.11:1234", "10.0.0.11"}}

func run(c Case) h.Outcome {
	codes, calls := 0, 0
	fw := &guard.Firewall{Blacklisting: c.Black, Subpath: c.Subpath, Rules: c.Rules, ErrorHandler: func(w http.ResponseWriter, r *http.Request, code int) {
		codes = codes*1000 + code
	}}
	next := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { calls++ })
	hd := fw.BlockHTTP(next)
	if c.Proxy {
		hd = fw.BlockProxy(next)
	}
	var let [2]int
	for _, p := range paths {
		for _, rm := range remotes {
			for _, m := range []string{"GET", "POST"} {
				codes, calls = 0, 0
				hd(h.NewRec(), &http.Request{Method: m, URL: &url.URL{Path: p}, RemoteAddr: rm[0], Header: http.Header{"X-Forwarded-For": {"10.0.0.2"}}})
				if ref.Firewall(c.Black, c.Subpath, c.Rules, rm[1], p) {
					let[1]++
					if codes != 0 || calls != 1 {
						return h.Outcome{Class: "differs", Bad: fmt.Sprintf("a request the firewall must let through is refused\nblacklisting=%v subpath=%v proxy=%v rules=%v: %s from %s: handler ran %d times, error %d", c.Black, c.Subpath, c.Proxy, c.Rules, p, rm[0], calls, codes)}
					}
				} else {
					let[0]++
					if codes != 403 || calls != 0 {
						return h.Outcome{Class: "differs", Bad: fmt.Sprintf("a request the firewall must refuse is let through\nblacklisting=%v subpath=%v proxy=%v rules=%v: %s from %s: handler ran %d times, error %d", c.Black, c.Subpath, c.Proxy, c.Rules, p, rm[0], calls, codes)}
					}
				}
			}
		}
	}
	cl := "mixed"
	if let[0] == 0 {
		cl = "all let through"
	} else if let[1] == 0 {
		cl = "all refused"
	}
	n := len(paths) * len(remotes) * 2
	return h.Outcome{Class: cl, Sig: fmt.Sprint(c), States: n, Transitions: n, Sample: fmt.Sprintf("%+v: %d refused, %d let through", c, let[0], let[1])}
}

// Long is a firewall with many clients in a rule, many rules, or a rule many levels above what is asked for.
type Long struct {
	Case
	N    int
	Kind string
}

func addr(i int) string { return fmt.Sprintf("10.%d.%d.%d", i>>16, i>>8&255, i&255) }

func longRun(c Long) h.Outcome {
	rules := map[string][]string{}
	type q struct {
		client, path string
		named        bool
	}
	var qs []q
	switch c.Kind {
	case "clients":
		for i := 0; i < c.N; i++ {
			rules["/a"] = append(rules["/a"], addr(i))
		}
		for i := 0; i <= c.N; i++ {
			qs = append(qs, q{addr(i), "/a", i < c.N}, q{addr(i), "/a/b", i < c.N}, q{addr(i), "/b", false})
		}
	case "rules":
		for i := 0; i < c.N; i++ {
			rules[fmt.Sprintf("/r%d", i)] = []string{addr(i)}
		}
		for i := 0; i <= c.N; i++ {
			p := fmt.Sprintf("/r%d", i)
			qs = append(qs, q{addr(i), p, i < c.N}, q{addr(i), p + "/x", i < c.N}, q{addr(i + 1), p, false})
		}
	case "depth":
		rules["/d"] = []string{addr(1)}
		for i := 0; i < c.N; i++ {
			p := "/d" + strings.Repeat("/e", i)
			qs = append(qs, q{addr(1), p, true}, q{addr(2), p, false}, q{addr(1), p + "/", true})
		}
	}
	codes, calls := 0, 0
	fw := &guard.Firewall{Blacklisting: c.Black, Subpath: c.Subpath, Rules: rules, ErrorHandler: func(w http.ResponseWriter, r *http.Request, code int) {
		codes = codes*1000 + code
	}}
	next := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { calls++ })
	hd := fw.BlockHTTP(next)
	if c.Proxy {
		hd = fw.BlockProxy(next)
	}
	for _, x := range qs {
		codes, calls = 0, 0
		hd(h.NewRec(), &http.Request{Method: "GET", URL: &url.URL{Path: x.path}, RemoteAddr: x.client + ":77", Header: http.Header{}})
		let := x.named != c.Black
		if let && (codes != 0 || calls != 1) || !let && (codes != 403 || calls != 0) {
			return h.Outcome{Class: "differs", Bad: fmt.Sprintf("a verdict with many rules or clients is wrong\nblacklisting=%v subpath=%v proxy=%v, %d %s: %.80s from %s: named %v, but handler ran %d times, error %d", c.Black, c.Subpath, c.Proxy, c.N, c.Kind, x.path, x.client, x.named, calls, codes)}
		}
	}
	return h.Outcome{Class: c.Kind, Sig: fmt.Sprint(c), States: len(qs), Transitions: len(qs), Sample: fmt.Sprintf("%+v", c)}
}

// vary asks in every kind of request: the verdict depends on the address and the path only.
func vary(c Case) h.Outcome {
	codes, calls, n := 0, 0, 0
	fw := &guard.Firewall{Blacklisting: c.Black, Subpath: c.Subpath, Rules: c.Rules, ErrorHandler: func(w http.ResponseWriter, r *http.Request, code int) {
		codes = codes*1000 + code
	}}
	next := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { calls++ })
	hd := fw.BlockHTTP(next)
	if c.Proxy {
		hd = fw.BlockProxy(next)
	}
	other := []string{"10.9.9.9"}
	var kinds []func(r *http.Request)
	for _, m := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "CONNECT", "TRACE", "PATCH", "PROPFIND", "get", ""} {
		m := m
		kinds = append(kinds, func(r *http.Request) { r.Method = m })
	}
	for _, k := range []string{"X-Forwarded-For", "X-Real-Ip", "Forwarded", "X-Client-Ip", "True-Client-Ip", "Cf-Connecting-Ip", "X-Originating-Ip", "Via", "Authorization", "Cookie", "User-Agent", "Referer", "Origin", "Upgrade", "Range", "If-None-Match", "Host", "X-Forwarded-Host", "X-Original-Url", "X-Rewrite-Url", "X-Http-Method-Override"} {
		k := k
		kinds = append(kinds, func(r *http.Request) { r.Header[k] = other }, func(r *http.Request) { r.Header[k] = []string{"127.0.0.1"} }, func(r *http.Request) { r.Header[k] = []string{"for=10.9.9.9", "10.9.9.9, 10.0.0.1"} })
	}
	kinds = append(kinds,
		func(r *http.Request) { r.Host = "10.9.9.9" },
		func(r *http.Request) { r.Host = "localhost:80" },
		func(r *http.Request) { r.URL.RawQuery = "a=/b/../c&ip=10.9.9.9" },
		func(r *http.Request) { r.URL.RawPath = "/%2561" },
		func(r *http.Request) { r.URL.Host, r.URL.Scheme = "10.9.9.9", "http" },
		func(r *http.Request) { r.URL.User = url.UserPassword("10.9.9.9", "x") },
		func(r *http.Request) { r.RequestURI = "/zzz" },
		func(r *http.Request) {
			r.TLS, r.Proto, r.ProtoMajor, r.ProtoMinor = &tls.ConnectionState{}, "HTTP/2.0", 2, 0
		},
		func(r *http.Request) { r.Proto, r.ProtoMinor, r.Close = "HTTP/1.0", 0, true },
		func(r *http.Request) { r.ContentLength, r.Body = 1<<30, http.NoBody },
	)
	for _, p := range []string{"/", "/a", "/a/b", "/b", "/favicon.ico", "/robots.txt", "/a/style.css", "/.well-known/acme-challenge/x", "/index.html"} {
		for _, rm := range [][2]string{{"10.0.0.1:1234", "10.0.0.1"}, {"127.0.0.1:1", "127.0.0.1"}, {"[::1]:99", "::1"}, {"10.9.9.9:0", "10.9.9.9"}, {"[fe80::1%eth0]:5", "fe80::1%eth0"}, {"[fe80::1%eth1]:5", "fe80::1%eth1"}, {"[fe80::1]:5", "fe80::1"}, {"[2001:db8:1:2:3:4:5:6]:65535", "2001:db8:1:2:3:4:5:6"}, {"[2001:db8:1:2:3:4:5:7]:5", "2001:db8:1:2:3:4:5:7"}} {
			let := ref.Firewall(c.Black, c.Subpath, c.Rules, rm[1], p)
			for i, k := range kinds {
				codes, calls = 0, 0
				r := &http.Request{Method: "GET", Host: "h1", URL: &url.URL{Path: p}, RemoteAddr: rm[0], Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
				k(r)
				n++
				hd(h.NewRec(), r)
				if let && (codes != 0 || calls != 1) || !let && (codes != 403 || calls != 0) {
					return h.Outcome{Class: "differs", Bad: fmt.Sprintf("the verdict depends on more than address and path\nblacklisting=%v subpath=%v proxy=%v rules=%v: kind %d, %s %s from %s with %v: let through should be %v, handler ran %d times, error %d", c.Black, c.Subpath, c.Proxy, c.Rules, i, r.Method, p, rm[0], r.Header, let, calls, codes)}
				}
			}
		}
	}
	return h.Outcome{Class: "same verdict", Sig: fmt.Sprint(c), States: n, Transitions: n, Sample: fmt.Sprintf("%+v", c)}
}

func gen(ps []string, lists [][]string) func(func(Case) bool) {
	return func(y func(Case) bool) {
		var rec func(i int, m map[string][]string) bool
		rec = func(i int, m map[string][]string) bool {
			if i == len(ps) {
				for b := 0; b < 8; b++ {
					cp := map[string][]string{}
					for k, v := range m {
						cp[k] = v
					}
					if !y(Case{b&1 != 0, b&2 != 0, b&4 != 0, cp}) {
						return false
					}
				}
				return true
			}
			if !rec(i+1, m) {
				return false
			}
			for _, l := range lists {
				m[ps[i]] = l
				if !rec(i+1, m) {
					return false
				}
				delete(m, ps[i])
			}
			return true
		}
		rec(0, map[string][]string{})
	}
}

func main() {
	h.Main("C04", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is one firewall (mode, subpath, middleware function, rule set) asked for every path and client of the alphabet; distinct = different firewalls"
		lists := [][]string{{}, {"10.0.0.1"}, {"10.0.0.2", "10.0.0.1"}, {"*"}, {"::1", "10.0.0.9"}}
		h.Enumerate(ctx, "rules", gen([]string{"/", "/a", "/a/b", "/a/b/c"}, lists), run)
		h.Enumerate(ctx, "siblings", gen([]string{"/", "/a", "/ab", "/b"}, lists[1:4]), run)
		h.Enumerate(ctx, "trailing slashes", gen([]string{"/", "/a", "/a/", "/a/b/"}, lists[1:4]), run)
		if ctx.Thorough() || ctx.Replay != nil {
			h.Enumerate(ctx, "deep", gen([]string{"/", "/a", "/a/b", "/a/b/c", "/b", "/a.b"}, lists[1:]), run)
		}
		h.Enumerate(ctx, "long lists", func(y func(Long) bool) {
			ns := []int{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025}
			if ctx.Thorough() {
				ns = append(ns, 4096, 5000, 10001, 70000)
			}
			for _, n := range ns {
				for b := 0; b < 8; b++ {
					for _, kind := range []string{"clients", "rules", "depth"} {
						if kind == "depth" && n > 300 {
							continue
						}
						if !y(Long{Case{b&1 != 0, b&2 != 0, b&4 != 0, nil}, n, kind}) {
							return
						}
					}
				}
			}
		}, longRun)
		h.Enumerate(ctx, "requests", gen([]string{"/", "/a"}, [][]string{{"10.0.0.1"}, {"127.0.0.1", "::1"}, {"10.9.9.9"}, {"fe80::1%eth0", "2001:db8:1:2:3:4:5:6"}, {"*"}}), vary)
		h.Enumerate(ctx, "default", h.List([]int{0}), func(int) h.Outcome {
			fw := guard.NewFirewall()
			fw.Rules = map[string][]string{"/x": {"10.0.0.1"}}
			for _, p := range []string{"/x", "/x/y", "/", "/z"} {
				for _, rm := range remotes {
					w := h.NewRec()
					fw.BlockHTTP(func(w http.ResponseWriter, r *http.Request) {})(w, &http.Request{URL: &url.URL{Path: p}, RemoteAddr: rm[0]})
					want := 200
					if !ref.Firewall(true, false, fw.Rules, rm[1], p) {
						want = 403
					}
					if w.Status() != want {
						return h.Outcome{Bad: fmt.Sprintf("NewFirewall does not blacklist\n%s from %s: %d, expected %d", p, rm[0], w.Status(), want)}
					}
				}
			}
			return h.Outcome{Class: "ok", Sig: "default", States: 16, Transitions: 16}
		})
		ctx.Bound("all rule sets over 4 nested paths with 5 client lists each and over 4 sibling paths with 3 (thorough: 6 paths), both modes, subpath on and off, and over 4 paths with and without a trailing slash, 17 request paths (4 of them relative), 4 clients; rules of up to 1025 clients, up to 1025 rules, paths 257 levels below a rule; 85 kinds of request (methods, forwarding headers, hosts, protocols) from 9 addresses with and without zones")
		ctx.Assume("rooted request paths are clean, as the router leaves them")
	})
}
