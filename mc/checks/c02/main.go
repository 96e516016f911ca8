// C02: middleware chains. Every history of AddRoute and UseMiddleware calls up to a depth; after it every
// request of an alphabet is answered twice and the trace of what ran is compared with the reference.
package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"

	"github.com/redmaner/MaguroHTTP/router"
	"verif/h"
	"verif/ref"
)

// Op is one registration: a route, or a middleware of a kind.
type Op struct {
	MW    string `json:",omitempty"` // "": route; else pass, block, func (MiddlewareHandlerFunc)
	Route ref.Route
}

// Case is a history.
type Case struct{ Ops []Op }

var requests []ref.Request

func run(c Case) h.Outcome {
	ro := router.NewRouter()
	var log []string
	var table []ref.Route
	known := map[string]bool{} // host+path that have a route
	for i, op := range c.Ops {
		nm := fmt.Sprint(i)
		if op.MW == "" {
			table = append(table, op.Route)
			known[op.Route.Host+normal(op.Route.Path)] = true
			ro.AddRoute(op.Route.Host, op.Route.Path, op.Route.Fallback, op.Route.Method, op.Route.Content, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				log = append(log, "H"+nm)
			}))
			continue
		}
		kind := op.MW
		wrap := func(next http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				log = append(log, "<"+nm)
				if kind != "block" {
					next.ServeHTTP(w, q)
				}
				log = append(log, ">"+nm)
			})
		}
		if kind == "func" {
			ro.UseMiddleware(op.Route.Host, op.Route.Path, router.MiddlewareHandlerFunc(func(next http.HandlerFunc) http.HandlerFunc { return wrap(next).ServeHTTP }))
		} else {
			ro.UseMiddleware(op.Route.Host, op.Route.Path, router.MiddlewareHandler(wrap))
		}
	}
	// a path that has middleware but no route is not specified
	bare := map[string]bool{}
	for _, op := range c.Ops {
		k := op.Route.Host + normal(op.Route.Path)
		if op.MW != "" && !known[k] {
			bare[op.Route.Host+" "+normal(op.Route.Path)] = true
		}
	}
	nreq := 0
	for _, q := range requests {
		if touchesBare(bare, q) {
			continue
		}
		nreq++
		st, idx := ref.Resolve(table, q)
		want := ""
		if st == 200 {
			// map the table index back to the op index and collect the middleware of its host and path
			opi, n := -1, -1
			for i, op := range c.Ops {
				if op.MW == "" {
					n++
					if n == idx {
						opi = i
					}
				}
			}
			var pre, post []string
			blocked := false
			for i, op := range c.Ops {
				if op.MW == "" || op.Route.Host != table[idx].Host || normal(op.Route.Path) != normal(table[idx].Path) {
					continue
				}
				pre = append(pre, fmt.Sprintf("<%d", i))
				post = append([]string{fmt.Sprintf(">%d", i)}, post...)
				if op.MW == "block" {
					blocked = true
					break
				}
			}
			if !blocked {
				pre = append(pre, fmt.Sprintf("H%d", opi))
			}
			want = strings.Join(append(pre, post...), " ")
		}
		for round := 0; round < 2; round++ {
			log = nil
			r := &http.Request{Method: q.Method, Host: q.Host, URL: &url.URL{Path: q.Path}, Header: http.Header{"Content-Type": {q.CT}}}
			w := h.NewRec()
			ro.ServeHTTP(w, r)
			if got := strings.Join(log, " "); got != want || w.Status() != st {
				return h.Outcome{Class: "differs", Bad: fmt.Sprintf("the middleware chain of a request is not the registered one\nhistory %+v\nrequest %+v (round %d): status %d, ran %q; expected status %d, %q", c.Ops, q, round+1, w.Status(), got, st, want)}
			}
		}
	}
	return h.Outcome{Class: fmt.Sprintf("%d operations", len(c.Ops)), Sig: fmt.Sprint(c), States: 2 * nreq, Transitions: 2*nreq + len(c.Ops), Sample: fmt.Sprintf("%+v", c.Ops)}
}

func normal(p string) string {
	if p != "/" {
		return strings.TrimSuffix(p, "/")
	}
	return p
}

func touchesBare(bare map[string]bool, q ref.Request) bool {
	p := ref.Clean(q.Path)
	for b := range bare {
		f := strings.SplitN(b, " ", 2)
		if (f[0] == ref.StripPort(q.Host) || f[0] == ref.DefaultHost) && (p == f[1] || strings.HasPrefix(p, strings.TrimSuffix(f[1], "/")+"/")) {
			return true
		}
	}
	return false
}

func main() {
	h.Main("C02", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is a history of AddRoute/UseMiddleware calls; after it each request of the alphabet is answered twice and the recorded trace of middleware and handlers is compared; distinct = different histories"
		for _, hst := range []string{"h1", "h2"} {
			for _, p := range []string{"/", "/a", "/a/b", "/a/b/c", "/c"} {
				for _, m := range []string{"GET", "POST"} {
					requests = append(requests, ref.Request{Host: hst, Path: p, Method: m, CT: "x/y"})
				}
			}
		}
		hist := func(alpha []Op, n int) func(func(Case) bool) {
			return func(y func(Case) bool) {
				var rec func(pre []Op) bool
				rec = func(pre []Op) bool {
					if len(pre) == n {
						return y(Case{append([]Op{}, pre...)})
					}
					for _, o := range alpha {
						if !rec(append(pre, o)) {
							return false
						}
					}
					return true
				}
				rec(nil)
			}
		}
		mk := func(hosts, paths []string, routes []ref.Route, mws []string) (out []Op) {
			for _, hst := range hosts {
				for _, p := range paths {
					for _, r := range routes {
						r.Host, r.Path = hst, p
						out = append(out, Op{Route: r})
					}
					for _, m := range mws {
						out = append(out, Op{MW: m, Route: ref.Route{Host: hst, Path: p}})
					}
				}
			}
			return
		}
		g := ref.Route{Fallback: true, Method: "GET", Content: "*"}
		po := ref.Route{Fallback: false, Method: "POST", Content: "*"}
		wide := mk([]string{"h1", ref.DefaultHost}, []string{"/", "/a"}, []ref.Route{g, po}, []string{"pass", "block", "func"})
		narrow := mk([]string{"h1"}, []string{"/", "/a", "/a/"}, []ref.Route{g}, []string{"pass", "block"})
		deep := mk([]string{"h1"}, []string{"/a"}, []ref.Route{g, po}, []string{"pass", "block"})
		h.Enumerate(ctx, "wide", func(y func(Case) bool) {
			stop := false
			for n := 1; n <= 4 && !stop; n++ {
				hist(wide, n)(func(c Case) bool { stop = !y(c); return !stop })
			}
		}, run)
		h.Enumerate(ctx, "narrow", hist(narrow, 5), run)
		h.Enumerate(ctx, "deep", hist(deep, 7), run)
		lengths := []int{63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000}
		for n := 8; n <= 40; n++ {
			lengths = append(lengths, n)
		}
		h.Enumerate(ctx, "long chains", func(y func(Case) bool) {
			for _, n := range lengths {
				for _, kinds := range [][]string{{"pass"}, {"func"}, {"func", "pass"}} {
					for _, route := range []int{0, n / 2, n} {
						for _, block := range []int{-1, 0, n / 2, n - 1} {
							for _, path := range []string{"/", "/a"} {
								var c Case
								for i := 0; i <= n; i++ {
									if i == route {
										r := g
										r.Host, r.Path = "h1", path
										c.Ops = append(c.Ops, Op{Route: r})
									}
									if i == n {
										break
									}
									k := kinds[i%len(kinds)]
									if i == block {
										k = "block"
									}
									c.Ops = append(c.Ops, Op{MW: k, Route: ref.Route{Host: "h1", Path: path}})
								}
								if !y(c) {
									return
								}
							}
						}
					}
				}
			}
		}, run)
		if ctx.Thorough() || ctx.Replay != nil {
			h.Enumerate(ctx, "wide-5", hist(wide, 5), run)
			h.Enumerate(ctx, "deep-9", hist(deep, 9), run)
		}
		ctx.Bound("all histories of length up to 4 over 20 operations (2 hosts, 2 paths, 2 methods, 3 middleware kinds), of length 5 over 9, of length 7 over 4 on one path; chains of 8 to 40 and up to 1000 middlewares of three mixes, the route first, in the middle or last, a blocking one at three places (thorough: 5 over 20, 9 over 4)")
		ctx.Assume("a path with middleware but no route of any method is not specified")
	})
}
