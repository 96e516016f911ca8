// C01: routing decision. Every route table of the alphabet up to a size, every request of the alphabet,
// against a reference resolution written from the documentation.
package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"

	"github.com/redmaner/MaguroHTTP/router"
	"verif/h"
	"verif/ref"
)

// Case is a table and the request alphabet it is asked.
type Case struct {
	WebDAV bool
	Table  []Route
	Req    string // name of the request alphabet
}

type request = ref.Request

type Route = ref.Route

var alphabets = map[string][]request{}

func product(hosts, paths, methods, cts []string) (out []request) {
	for _, a := range hosts {
		for _, b := range paths {
			for _, c := range methods {
				for _, d := range cts {
					out = append(out, request{Host: a, Path: b, Method: c, CT: d})
				}
			}
		}
	}
	return
}

func run(c Case) h.Outcome {
	ro := router.NewRouter()
	ro.WebDAV = c.WebDAV
	hit, seen := -1, ""
	for i, r := range c.Table {
		i := i
		ro.AddRoute(r.Host, r.Path, r.Fallback, r.Method, r.Content, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			if hit >= 0 {
				hit = 1000
				return
			}
			hit, seen = i, q.URL.Path
		}))
	}
	cnt := map[int]int{}
	reqs := alphabets[c.Req]
	for _, q := range reqs {
		hit, seen = -1, ""
		r := &http.Request{Method: q.Method, Host: q.Host, URL: &url.URL{Path: q.Path}, Header: http.Header{}}
		if q.CT != "-" {
			r.Header["Content-Type"] = []string{q.CT}
		} else {
			q.CT = ""
		}
		w := h.NewRec()
		ro.ServeHTTP(w, r)
		st, idx := ref.Resolve(c.Table, q)
		cnt[st]++
		if w.Status() != st || hit != idx || (idx >= 0 && seen != ref.Clean(q.Path)) {
			return h.Outcome{Class: "differs", Bad: fmt.Sprintf("routing differs for some table and request\nrequest %+v: got status %d, route %d, path %q; expected status %d, route %d, path %q", q, w.Status(), hit, seen, st, idx, ref.Clean(q.Path))}
		}
	}
	return h.Outcome{Class: fmt.Sprintf("%d routes", len(c.Table)), Sig: fmt.Sprintf("%v", c), States: len(reqs), Transitions: len(reqs) + len(c.Table),
		Sample: fmt.Sprintf("table %+v: %v answers by status", c.Table, cnt)}
}

func main() {
	D := router.DefaultHost
	h.Main("C01", 8, func(ctx *h.Ctx) {
		thorough := ctx.Thorough() || ctx.Replay != nil
		ctx.Res.Rule = "a case is an ordered route table (AddRoute sequence) answered for every request of an alphabet; distinct = different tables; every case has requests that hit a route and requests that do not"
		alphabets["full"] = product([]string{"h1", "h1:80", "h2", D, "[::1]:8080", "H1", "::1", "h1:80:80", ":80"},
			[]string{"/", "/a", "/a/", "/a/b", "/a/b/", "/a/b/c", "/ab", "/b", "//a", "/a/../b", "/a/./b", "/../a", "", "a", "/A", "/a/b/../..", "/a/b/..", "/a/b/../", "/a%2fb", "/..a"},
			[]string{"GET", "POST", "HEAD", "get"},
			[]string{"-", "", "text/html", "text/html; charset=utf-8", "text/htm", "application/json", "application/json;q=1", "TEXT/HTML", "*", ";"})
		alphabets["paths"] = product([]string{"h1", "h1:80", "h2", D},
			[]string{"/", "/a", "/a/", "/a/b", "/a/b/c", "/a/b/c/d", "/a/b/c/", "/ab", "/b", "/b/c", "//a//b", "/a/../b", "/b/../a/b", ""},
			[]string{"GET", "POST"}, []string{"text/html"})
		// HTTP/2 clients can put a slash into the host name
		alphabets["paths"] = append(alphabets["paths"], product([]string{"h1/a", D + "/a", "h1/", D + "/", "h1/a/b:80", D + "/a/b", "/", "h1/.."}, []string{"/", "/a", "/b", "/b/c", "/c", "/c/d", "/../b", "/x"}, []string{"GET"}, []string{"text/html"})...)
		deep := func(n int) string { return strings.Repeat("/d", n) }
		alphabets["deep"] = product([]string{"h1", "h2"},
			[]string{deep(1), deep(2), deep(7), deep(8), deep(9), deep(10), deep(11), deep(17), deep(33), deep(65), deep(120), deep(120) + "/", deep(31) + "/e", "/e" + deep(20), deep(16) + "/../x", "/" + strings.Repeat("n", 300), "/" + strings.Repeat("n", 300) + deep(9)},
			[]string{"GET", "POST"}, []string{"text/html"})
		routes := func(hosts, paths, methods, contents []string) (out []Route) {
			for _, a := range hosts {
				for _, b := range paths {
					for _, f := range []bool{false, true} {
						for _, m := range methods {
							for _, ct := range contents {
								out = append(out, Route{Host: a, Path: b, Fallback: f, Method: m, Content: ct})
							}
						}
					}
				}
			}
			return
		}
		tables := func(rs []Route, n int, ordered bool, req string) func(func(Case) bool) {
			return func(y func(Case) bool) {
				var rec func(pre []Route, from int) bool
				rec = func(pre []Route, from int) bool {
					if len(pre) == n {
						return y(Case{Table: append([]Route{}, pre...), Req: req})
					}
					st := from
					if ordered {
						st = 0
					}
					for i := st; i < len(rs); i++ {
						if !rec(append(pre, rs[i]), i+1) {
							return false
						}
					}
					return true
				}
				rec(nil, 0)
			}
		}
		cts := []string{"*", "", ";", "text/html", "text/html;application/json", "application/json;"}
		one := routes([]string{"h1", D, "::1"}, []string{"/", "/a", "/a/", "/a/b", "/a/b/"}, []string{"GET", "POST"}, cts)
		h.Enumerate(ctx, "tables-1", tables(one, 1, false, "full"), run)
		two := routes([]string{"h1", D}, []string{"/", "/a", "/a/b"}, []string{"GET"}, []string{"*", "text/html", ";"})
		dp := routes([]string{"h1", D}, []string{"/", deep(1), deep(8), deep(31), deep(64) + "/", "/" + strings.Repeat("n", 300)}, []string{"GET"}, []string{"*"})
		h.Enumerate(ctx, "tables-deep", tables(dp, 2, false, "deep"), run)
		h.Enumerate(ctx, "tables-2", tables(two, 2, true, "full"), run)
		p2 := routes([]string{"h1", D}, []string{"/", "/a", "/a/b", "/a/b/c", "/b/"}, []string{"GET", "POST"}, []string{"*"})
		h.Enumerate(ctx, "tables-3-paths", tables(p2, 3, false, "paths"), run)
		p3 := routes([]string{"h1", D}, []string{"/", "/a", "/a/b", "/a/b/c"}, []string{"GET"}, []string{"*"})
		h.Enumerate(ctx, "tables-4-paths", tables(p3, 4, false, "paths"), run)
		if thorough {
			h.Enumerate(ctx, "tables-5-paths", tables(p3, 5, false, "paths"), run)
			h.Enumerate(ctx, "tables-3-ordered", tables(routes([]string{"h1", D}, []string{"/", "/a", "/a/b"}, []string{"GET", "POST"}, []string{"*", ";"}), 3, true, "paths"), run)
		}
		// content rules: every list of up to three entries
		tok := []string{"", "*", "*/*", "image/*", "text/html", "text/htm", "text/html ", "image/png", "text/html,image/png"}
		alphabets["contents"] = product([]string{"h1"}, []string{"/a", "/a/x"}, []string{"POST"}, append(append([]string{"-", ";", " ", "; ", "*;x", "text/html;", "text/html;x;text/htm", ";text/html", "text/html; charset=*", " text/html", "text/html ;x", "image/", "image", "TEXT/HTML", "text/html,", "application/x-sh", "text/html+x", "text/html+xml;q", "text/htmlx", "text/htm", "text/*", "*/*", "text/html\t", "a/text/html", "text/html/x", "text/html|*"}, tok...)))
		h.Enumerate(ctx, "content rules", func(y func(Case) bool) {
			put := func(c string) bool {
				return y(Case{Table: []Route{{Host: "h1", Path: "/a", Fallback: true, Method: "POST", Content: c}}, Req: "contents"})
			}
			for _, a := range tok {
				if !put(a) {
					return
				}
				for _, b := range tok {
					if !put(a + ";" + b) {
						return
					}
					for _, c := range tok {
						if !put(a + ";" + b + ";" + c) {
							return
						}
					}
				}
			}
		}, run)
		// every method, alone and against every other
		all := []string{"GET", "PUT", "POST", "DELETE", "PATCH", "CONNECT", "OPTIONS", "HEAD"}
		dav := append(append([]string{}, all...), "PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK")
		alphabets["methods"] = product([]string{"h1"}, []string{"/a", "/a/x", "/"}, append(append([]string{}, dav...), "TRACE", "X", ""), []string{"", "text/plain"})
		h.Enumerate(ctx, "methods", func(y func(Case) bool) {
			for _, wd := range []bool{false, true} {
				ms := all
				if wd {
					ms = dav
				}
				for _, m := range ms {
					for _, m2 := range ms {
						for _, fb := range []bool{false, true} {
							// the two methods of one path differ in fallback and content
							if !y(Case{WebDAV: wd, Table: []Route{{Host: "h1", Path: "/a", Fallback: fb, Method: m, Content: "*"}, {Host: "h1", Path: "/a", Fallback: !fb, Method: m2, Content: ""}}, Req: "methods"}) {
								return
							}
						}
					}
				}
			}
		}, run)
		ctx.Bound("tables of up to 4 routes (5 in thorough) over hosts {h1, ::1, DEFAULT}, paths up to 3 segments, 6 content rules, all lists of up to 3 content entries, all 15 methods")
		ctx.Assume("route paths are registered in clean form (optionally with one trailing slash)", "the router's default error handler is the observation of the status")
	})
}
