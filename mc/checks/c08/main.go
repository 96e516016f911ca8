// C08: rate limiting under concurrency. Every schedule up to a preemption bound of clients that send requests
// at the same time: each client gets exactly its burst, whatever the interleaving.
package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/redmaner/MaguroHTTP/guard"
	"verif/h"
	"verif/vsched"
)

type scn struct {
	name    string
	burst   int
	onIP    bool
	before  []string // requests sent first, one after another
	idle    time.Duration
	fresh   bool // the pause is so long that the limiter may forget the clients
	threads [][]string
	bound   int
}

func main() {
	vsched.UseVirtualClock()
	h.Main("C08", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is one schedule of a closed history of concurrent requests on the real limiter and cache; distinct = different answer vectors"
		scs := []scn{
			{"first requests, burst 1", 1, true, nil, 0, false, [][]string{{"10.0.0.1 x"}, {"10.0.0.1 x"}}, 3},
			{"first requests, burst 2", 2, false, nil, 0, false, [][]string{{"10.0.0.1 x", "10.0.0.1 x"}, {"10.0.0.1 x", "10.0.0.1 x"}}, 2},
			{"three threads, burst 2", 2, true, nil, 0, false, [][]string{{"10.0.0.1 x"}, {"10.0.0.1 y"}, {"10.0.0.1 z"}}, 2},
			{"known client", 3, true, []string{"10.0.0.1 x"}, 0, false, [][]string{{"10.0.0.1 x", "10.0.0.1 x"}, {"10.0.0.1 x"}}, 2},
			{"two clients", 1, true, nil, 0, false, [][]string{{"10.0.0.1 x", "10.0.0.2 x"}, {"10.0.0.2 x", "10.0.0.1 x"}}, 2},
			{"two clients and a third", 1, true, []string{"10.0.0.3 x"}, 0, false, [][]string{{"10.0.0.1 x", "10.0.0.3 x"}, {"10.0.0.2 x"}, {"10.0.0.1 x"}}, 1},
			{"user agents", 1, false, nil, 0, false, [][]string{{"10.0.0.1 x", "10.0.0.1 y"}, {"10.0.0.1 y", "10.0.0.1 x"}}, 2},
			{"after 14 minutes", 1, true, []string{"10.0.0.1 x"}, 14 * time.Minute, false, [][]string{{"10.0.0.1 x"}, {"10.0.0.1 x"}}, 2},
			{"after an hour", 1, true, []string{"10.0.0.1 x"}, time.Hour, true, [][]string{{"10.0.0.1 x"}, {"10.0.0.1 x"}}, 2},
		}
		var list []h.Scenario
		for _, s := range scs {
			s := s
			list = append(list, h.Scenario{Name: s.name, Bound: s.bound, Make: func() ([]vsched.Body, func(), func() (string, string)) {
				l := guard.NewLimiter(0.000001, s.burst, s.onIP)
				hd := l.LimitHTTP(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("in")) })
				ask := func(who string) string {
					f := strings.Fields(who)
					w := h.NewRec()
					hd(w, &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, RemoteAddr: f[0] + ":1", Header: http.Header{"User-Agent": {f[1]}}})
					return fmt.Sprint(w.Status(), string(w.Body) == "in")
				}
				left := map[string]int{}
				key := func(who string) string {
					if s.onIP {
						return strings.Fields(who)[0]
					}
					return who
				}
				for _, who := range s.before {
					ask(who)
					left[key(who)]--
				}
				vsched.Advance(s.idle)
				sent := map[string]int{}
				var all []*h.LinOp
				var bodies []vsched.Body
				for _, th := range s.threads {
					var mine []*h.LinOp
					for _, who := range th {
						mine = append(mine, &h.LinOp{Name: who})
						sent[key(who)]++
					}
					all = append(all, mine...)
					bodies = append(bodies, vsched.Body{Name: strings.Join(th, "; "), F: func() {
						for _, o := range mine {
							o.Do(func() string { return ask(o.Name) })
						}
					}})
				}
				return bodies, nil, func() (string, string) {
					cl := h.Answers(all)
					in := map[string]int{}
					for _, o := range all {
						switch o.Got {
						case "200 true":
							in[key(o.Name)]++
						case "429 false":
						default:
							return cl, "a request is neither served nor answered 429\n" + h.History(all)
						}
					}
					for k, n := range sent {
						want := s.burst + left[k]
						most := want
						if s.fresh {
							most = s.burst // the client may have been forgotten, once
						}
						if n < want {
							want = n
						}
						if in[k] > most {
							return cl, fmt.Sprintf("concurrent requests exceed the limit\nclient %s: %d served, %d allowed\n%s", k, in[k], most, h.History(all))
						}
						if in[k] < want {
							return cl, fmt.Sprintf("concurrent requests within the limit are refused\nclient %s: %d served, %d allowed\n%s", k, in[k], want, h.History(all))
						}
					}
					return cl, ""
				}
			}})
		}
		h.Schedules(ctx, 2, list)
		ctx.Assume("sync primitives and the clock of guard and cache are replaced by models with the documented semantics; x/time/rate runs as one step", "the rate is so low that no token is added during a schedule")
	})
}
