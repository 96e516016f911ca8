// C10: the cache under concurrency. Every schedule up to a preemption bound of closed histories on one and on
// several shards; every history must be linearizable against a map, and free of data races.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/cespare/xxhash"
	"github.com/redmaner/MaguroHTTP/cache"
	"verif/h"
	"verif/vsched"
)

// a, b, c and the fillers share a shard, z does not
var keys = map[string]string{}
var fillers []string

func init() {
	want := xxhash.Sum64String("k0") & 255
	keys["a"] = "k0"
	for i := 1; len(fillers) < 1100; i++ {
		s := fmt.Sprintf("k%d", i)
		if xxhash.Sum64String(s)&255 != want {
			keys["z"] = s
			continue
		}
		switch {
		case keys["b"] == "":
			keys["b"] = s
		case keys["c"] == "":
			keys["c"] = s
		default:
			fillers = append(fillers, s)
		}
	}
}

// operations: "set k v", "get k", "find k"
func act(c *cache.SpearCache, op string) string {
	f := strings.Fields(op)
	switch f[0] {
	case "set":
		c.Set(keys[f[1]], f[2])
		return "done"
	case "get":
		ok, v := c.Get(keys[f[1]], uint64(time.Hour))
		if !ok {
			return "miss"
		}
		return fmt.Sprint(v)
	}
	ok, v, age := c.Find(keys[f[1]])
	if !ok {
		return "miss"
	}
	if age > uint64(time.Hour) {
		return fmt.Sprintf("%v with age %d", v, age)
	}
	return fmt.Sprint(v)
}

// the model state is a list of k=v;
func model(s string, op *h.LinOp) (string, bool) {
	f := strings.Fields(op.Name)
	if f[0] == "set" {
		out := ""
		for _, kv := range strings.Split(s, ";") {
			if kv != "" && !strings.HasPrefix(kv, f[1]+"=") {
				out += kv + ";"
			}
		}
		return out + f[1] + "=" + f[2] + ";", op.Got == "done"
	}
	for _, kv := range strings.Split(s, ";") {
		if strings.HasPrefix(kv, f[1]+"=") {
			return s, op.Got == kv[len(f[1])+1:]
		}
	}
	return s, op.Got == "miss"
}

type scn struct {
	name    string
	fill    int
	setup   []string
	threads [][]string
	final   []string
	bound   int
}

func main() {
	vsched.UseVirtualClock()
	h.Main("C10", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is one schedule of a closed concurrent history on the real cache; distinct = different answer vectors"
		scs := []scn{
			{"first sets of a shard", 0, nil, [][]string{{"set a 1"}, {"set b 2"}}, []string{"get a", "get b"}, 3},
			{"first set and lookups", 0, nil, [][]string{{"set a 1"}, {"get a", "get a"}, {"find a"}}, []string{"find a"}, 2},
			{"set and get one key", 0, []string{"set a 0"}, [][]string{{"set a 1", "get a"}, {"get a", "set a 2"}}, []string{"get a", "find a"}, 2},
			{"three setters", 0, []string{"set a 0"}, [][]string{{"set a 1"}, {"set b 2"}, {"set c 3"}}, []string{"get a", "get b", "get c"}, 2},
			{"lookups only", 0, []string{"set a 1", "set b 2"}, [][]string{{"get a", "find b"}, {"get b", "find a"}}, []string{"get a", "get b"}, 2},
			{"two shards", 0, nil, [][]string{{"set a 1", "get z"}, {"set z 2", "get a"}}, []string{"get a", "get z"}, 2},
			{"at the wrap", 1022, []string{"set a 0"}, [][]string{{"set b 1", "get b"}, {"get a", "set c 2"}}, []string{"get a", "get b", "get c"}, 2},
			{"past the wrap", 1023, []string{"set a 0"}, [][]string{{"get a", "get b"}, {"set b 1"}, {"find a"}}, []string{"get a", "find b"}, 1},
			{"full ring", 1060, []string{"set a 0", "set b 0"}, [][]string{{"get a"}, {"set a 1"}, {"find b", "set b 2"}}, []string{"get a", "get b"}, 1},
		}
		var list []h.Scenario
		for _, s := range scs {
			s := s
			list = append(list, h.Scenario{Name: s.name, Bound: s.bound, Make: func() ([]vsched.Body, func(), func() (string, string)) {
				c := cache.NewCache()
				for i := 0; i < s.fill; i++ {
					c.Set(fillers[i], "filler")
				}
				init := ""
				for _, op := range s.setup {
					o := &h.LinOp{Name: op, Got: act(c, op)}
					init, _ = model(init, o)
				}
				var all []*h.LinOp
				var bodies []vsched.Body
				for _, th := range s.threads {
					var mine []*h.LinOp
					for _, op := range th {
						mine = append(mine, &h.LinOp{Name: op})
					}
					all = append(all, mine...)
					bodies = append(bodies, vsched.Body{Name: strings.Join(th, "; "), F: func() {
						for _, o := range mine {
							o.Do(func() string { return act(c, o.Name) })
						}
					}})
				}
				var fin []*h.LinOp
				for _, op := range s.final {
					fin = append(fin, &h.LinOp{Name: op})
				}
				all = append(all, fin...)
				return bodies, func() {
						for _, o := range fin {
							o.Do(func() string { return act(c, o.Name) })
						}
					}, func() (string, string) {
						cl := h.Answers(all)
						if !h.Linearizable(all, init, model) {
							return cl, "the answers are not those of any order of the operations\nsetup: " + init + "\n" + h.History(all)
						}
						return cl, ""
					}
			}})
		}
		h.Schedules(ctx, 2, list)
		ctx.Bound("at most two visits of a statement per thread are preemption points (loop bodies over the ring repeat the same statement)")
		ctx.Assume("sync primitives and the clock of the cache package are replaced by models with the documented semantics", "no entry is old enough to be forgotten or expired in these histories")
	})
}
