// C03: the router under concurrent registration and requests. Every schedule up to a preemption bound of
// small closed histories; every history must be linearizable against a sequential router.
package main

import (
	"net/http"
	"net/url"
	"sort"
	"strings"

	"github.com/redmaner/MaguroHTTP/router"
	"verif/h"
	"verif/ref"
	"verif/vsched"
)

// operations: "add host path method fallback", "mw host path name", "get host path method"
func act(ro *router.SRouter, op string) string {
	f := strings.Fields(op)
	switch f[0] {
	case "add":
		id := f[1] + f[2] + "#" + f[3] + f[4]
		ro.AddRoute(f[1], f[2], f[4] == "fb", f[3], "*", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.Write([]byte("H:" + id))
		}))
	case "mw":
		nm := f[3]
		ro.UseMiddleware(f[1], f[2], router.MiddlewareHandler(func(next http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				w.Write([]byte(nm + ","))
				next.ServeHTTP(w, r)
			})
		}))
	case "get":
		w := h.NewRec()
		ro.ServeHTTP(w, &http.Request{Method: f[3], Host: f[1], URL: &url.URL{Path: f[2]}, Header: http.Header{}})
		if w.Status() != 200 {
			return http.StatusText(w.Status())
		}
		return string(w.Body)
	}
	return "done"
}

// the model state is the sequence of registrations done
func model(s string, op *h.LinOp) (string, bool) {
	f := strings.Fields(op.Name)
	if f[0] != "get" {
		return s + op.Name + ";", op.Got == "done"
	}
	var table []ref.Route
	for _, l := range strings.Split(s, ";") {
		g := strings.Fields(l)
		if len(g) > 0 && g[0] == "add" {
			table = append(table, ref.Route{Host: g[1], Path: g[2], Method: g[3], Fallback: g[4] == "fb", Content: "*"})
		}
	}
	st, i := ref.Resolve(table, ref.Request{Host: f[1], Path: f[2], Method: f[3]})
	if st != 200 {
		return s, op.Got == http.StatusText(st)
	}
	want := ""
	for _, l := range strings.Split(s, ";") {
		g := strings.Fields(l)
		if len(g) > 0 && g[0] == "mw" && g[1] == table[i].Host && g[2] == table[i].Path {
			want += g[3] + ","
		}
	}
	fb := "exact"
	if table[i].Fallback {
		fb = "fb"
	}
	return s, op.Got == want+"H:"+table[i].Host+table[i].Path+"#"+table[i].Method+fb
}

type scn struct {
	name    string
	setup   []string
	threads [][]string
	final   []string
	bound   int
}

func main() {
	h.Main("C03", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is one schedule of a closed concurrent history on the real router; distinct = different answer vectors; a history with requests overlapping a registration is non-trivial"
		G := "GET"
		scs := []scn{
			{"first-registration", nil, [][]string{{"add h1 /a GET exact"}, {"get h1 /a GET", "get h1 /a GET"}, {"add h1 /b GET fb"}}, []string{"get h1 /a GET", "get h1 /b/c GET"}, 2},
			{"two-methods-one-path", nil, [][]string{{"add h1 /a GET exact"}, {"add h1 /a POST exact"}}, []string{"get h1 /a GET", "get h1 /a POST"}, 3},
			{"middleware-order", []string{"add h1 /a GET exact"}, [][]string{{"mw h1 /a m1", "mw h1 /a m2"}, {"get h1 /a GET", "get h1 /a GET"}}, []string{"get h1 /a GET"}, 2},
			{"two-middleware-registrars", []string{"add h1 /a GET exact"}, [][]string{{"mw h1 /a m1"}, {"mw h1 /a m2"}, {"get h1 /a GET"}}, []string{"get h1 /a GET"}, 2},
			{"replace", []string{"add h1 /a GET exact", "mw h1 /a m1"}, [][]string{{"add h1 /a GET fb"}, {"get h1 /a GET", "get h1 /a/x GET"}}, []string{"get h1 /a/x GET"}, 2},
			{"shadowing", []string{"add DEFAULT / GET fb"}, [][]string{{"add h1 / GET fb"}, {"get h1 /a/b GET"}, {"add DEFAULT /a/b GET exact"}}, []string{"get h1 /a/b GET", "get h1 /a GET"}, 1},
			{"requests-only", []string{"add h1 /a GET exact", "mw h1 /a m1", "mw h1 /a m2", "add h2 / GET fb", "mw h2 / m3"}, [][]string{{"get h1 /a GET", "get h2 /q GET"}, {"get h2 /z/y GET", "get h1 /a POST"}}, []string{"get h1 /a GET"}, 2},
			{"readers-and-writers", []string{"add h1 /a GET exact"}, [][]string{{"get h1 /a GET"}, {"mw h1 /a m1"}, {"get h1 /a GET"}, {"add h1 /b GET exact"}}, []string{"get h1 /b GET", "get h1 /a GET"}, 1},
		}
		_ = G
		var list []h.Scenario
		for _, s := range scs {
			s := s
			list = append(list, h.Scenario{Name: s.name, Bound: s.bound, Make: func() ([]vsched.Body, func(), func() (string, string)) {
				ro := router.NewRouter()
				init := ""
				for _, op := range s.setup {
					act(ro, op)
					init += op + ";"
				}
				var ops []*h.LinOp
				var bodies []vsched.Body
				for _, th := range s.threads {
					var mine []*h.LinOp
					for _, op := range th {
						mine = append(mine, &h.LinOp{Name: op})
					}
					ops = append(ops, mine...)
					bodies = append(bodies, vsched.Body{Name: strings.Join(th, "; "), F: func() {
						for _, o := range mine {
							o.Do(func() string { return act(ro, o.Name) })
						}
					}})
				}
				var fin []*h.LinOp
				for _, op := range s.final {
					fin = append(fin, &h.LinOp{Name: op})
				}
				all := append(append([]*h.LinOp{}, ops...), fin...)
				return bodies, func() {
						for _, o := range fin {
							o.Do(func() string { return act(ro, o.Name) })
						}
					}, func() (string, string) {
						cl := h.Answers(all)
						if !h.Linearizable(all, init, model) {
							return cl, "the answers are not those of any order of the operations\nsetup: " + init + "\n" + h.History(all)
						}
						return cl, ""
					}
			}})
		}
		sort.SliceStable(list, func(i, j int) bool { return list[i].Bound < list[j].Bound })
		h.Schedules(ctx, 2, list)
		ctx.Assume("sync.Mutex/RWMutex/Once/WaitGroup of the router package are replaced by models with the documented semantics", "preemption points are statements and lock operations; races inside one statement are covered by the happens-before monitor of the race build")
	})
}
