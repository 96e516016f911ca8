// C09: the cache as a sequential object, under a virtual clock. Every operation history of an alphabet up to a
// depth, and every short history at every interesting position of the ring buffer, against a map with times.
package main

import (
	"fmt"
	"time"

	"github.com/cespare/xxhash"
	"github.com/redmaner/MaguroHTTP/cache"
	"verif/h"
	"verif/vsched"
)

// Op is one operation: S set, G get, F find, T let time pass, N fill (N operations on other keys of the shard).
type Op struct {
	K    byte
	Key  int           `json:",omitempty"`
	Age  time.Duration `json:",omitempty"`
	N    int           `json:",omitempty"`
	Mode int           `json:",omitempty"`
}

func (o Op) String() string {
	switch o.K {
	case 'S':
		return fmt.Sprintf("Set(k%d)", o.Key)
	case 'G':
		return fmt.Sprintf("Get(k%d,%v)", o.Key, o.Age)
	case 'F':
		return fmt.Sprintf("Find(k%d)", o.Key)
	case 'T':
		return fmt.Sprintf("+%v", o.Age)
	}
	return fmt.Sprintf("fill(%d,mode %d)", o.N, o.Mode)
}

// Case is a history.
type Case struct{ Ops []Op }

// keys 0..2 share a shard of 256, key 3 does not; fillers share it too
var keys []string
var fillers []string

func init() {
	want := xxhash.Sum64String("k0") & 255
	keys = []string{"k0"}
	for i := 1; len(keys) < 3 || len(fillers) < 4200; i++ {
		s := fmt.Sprintf("k%d", i)
		if xxhash.Sum64String(s)&255 == want {
			if len(keys) < 3 {
				keys = append(keys, s)
			} else {
				fillers = append(fillers, s)
			}
		}
	}
	keys = append(keys, "other")
	if xxhash.Sum64String("other")&255 == want {
		keys[3] = "other2"
	}
}

type entry struct {
	set   bool
	val   int
	at    int64 // clock of the last set or successful lookup
	seq   int   // operation count at that time
	sure  bool  // the cache must still have it unless it expired
	ghost bool
}

// run runs a history on a clock that stands still during operations, where ages are exact, and short ones
// also on one that ticks 1 ns per reading.
func run(c Case) h.Outcome {
	o := runAt(c, 0)
	if o.Bad == "" && (len(c.Ops) <= 4 || len(c.Ops)%2 == 1 && long) {
		if t := runAt(c, 1000); t.Bad != "" {
			return t
		}
	}
	return o
}

var long bool

func runAt(c Case, slack int64) h.Outcome {
	vsched.Tick = 0
	if slack > 0 {
		vsched.Tick = 1
	}
	sc := cache.NewCache()
	m := map[string]*entry{}
	seq, val, fi := 0, 0, 0
	hits, misses := 0, 0
	touch := func(k string, v int) {
		m[k] = &entry{set: true, val: v, at: vsched.Clock(), seq: seq}
	}
	look := func(i int, o Op, key string, find bool, maxAge time.Duration) string {
		before := vsched.Clock()
		var ok bool
		var v interface{}
		var age uint64
		if find {
			ok, v, age = sc.Find(key)
		} else {
			ok, v = sc.Get(key, uint64(maxAge))
		}
		e := m[key]
		seq++
		where := fmt.Sprintf("\noperation %d (%v) of %v", i+1, o, c.Ops)
		if !ok {
			misses++
			if v != nil {
				return fmt.Sprintf("a miss carries a value%s: %v", where, v)
			}
			if e != nil && seq-e.seq < 1000 {
				if find || before-e.at+slack <= int64(maxAge) {
					return fmt.Sprintf("an entry that is present and not expired is not found%s: age %v, %d operations old", where, time.Duration(before-e.at), seq-e.seq)
				}
			}
			if e != nil && find {
				delete(m, key)
			}
			return ""
		}
		hits++
		if e == nil {
			return fmt.Sprintf("a key that was never set (or is gone) is found%s: value %v", where, v)
		}
		if v != e.val {
			return fmt.Sprintf("a lookup returns another value than the last one set%s: got %v, expected %v", where, v, e.val)
		}
		if !find && before-e.at-slack > int64(maxAge) {
			return fmt.Sprintf("an expired entry is returned%s: age %v", where, time.Duration(before-e.at))
		}
		if find && (int64(age) < before-e.at-slack || int64(age) > before-e.at+slack) {
			return fmt.Sprintf("Find reports a wrong age%s: %v, expected %v", where, time.Duration(age), time.Duration(before-e.at))
		}
		e.at, e.seq = vsched.Clock(), seq
		return ""
	}
	steps := 0
	for i, o := range c.Ops {
		steps++
		switch o.K {
		case 'S':
			val++
			seq++
			sc.Set(keys[o.Key], val)
			touch(keys[o.Key], val)
		case 'G':
			if b := look(i, o, keys[o.Key], false, o.Age); b != "" {
				return h.Outcome{Class: "differs", Bad: b}
			}
		case 'F':
			if b := look(i, o, keys[o.Key], true, 0); b != "" {
				return h.Outcome{Class: "differs", Bad: b}
			}
		case 'T':
			vsched.Advance(o.Age)
		case 'N':
			steps += o.N
			for j := 0; j < o.N; j++ {
				switch o.Mode {
				case 0: // sets of fresh keys
					k := fillers[fi%len(fillers)]
					fi++
					val++
					seq++
					sc.Set(k, val)
					touch(k, val)
				case 1: // a set every third time, lookups of the last one in between
					if j%3 == 0 {
						fi++
						val++
						seq++
						k := fillers[fi%len(fillers)]
						sc.Set(k, val)
						touch(k, val)
					} else if b := look(i, o, fillers[fi%len(fillers)], j%3 == 1, time.Hour); b != "" {
						return h.Outcome{Class: "differs", Bad: b}
					}
				case 2: // nine keys in turn, set again and again
					k := fillers[j%9]
					val++
					seq++
					sc.Set(k, val)
					touch(k, val)
				}
			}
		}
	}
	return h.Outcome{Class: fmt.Sprintf("%d operations", len(c.Ops)), Sig: fmt.Sprint(c.Ops), States: steps, Transitions: steps, Sample: fmt.Sprintf("%v: %d hits, %d misses", c.Ops, hits, misses)}
}

func main() {
	vsched.UseVirtualClock()
	h.Main("C09", 8, func(ctx *h.Ctx) {
		deep := ctx.Thorough() || ctx.Replay != nil
		ctx.Res.Rule = "a case is an operation history on a fresh cache, every answer compared with a map of values and times; distinct = different histories"
		long = ctx.Thorough()
		const S, L = 10 * time.Millisecond, time.Hour
		var alpha []Op
		for k := 0; k < 2; k++ {
			alpha = append(alpha, Op{K: 'S', Key: k}, Op{K: 'G', Key: k, Age: S}, Op{K: 'G', Key: k, Age: L}, Op{K: 'F', Key: k})
		}
		alpha = append(alpha, Op{K: 'S', Key: 3}, Op{K: 'G', Key: 3, Age: L}, Op{K: 'T', Age: 5 * time.Millisecond}, Op{K: 'T', Age: 15 * time.Millisecond})
		hist := func(al []Op, n int, pre, post []Op, y func(Case) bool) bool {
			var rec func(x []Op) bool
			rec = func(x []Op) bool {
				if len(x) == n {
					return y(Case{append(append(append([]Op{}, pre...), x...), post...)})
				}
				for _, o := range al {
					if !rec(append(x[:len(x):len(x)], o)) {
						return false
					}
				}
				return true
			}
			return rec(nil)
		}
		h.Enumerate(ctx, "histories", func(y func(Case) bool) {
			for n := 1; n <= 5; n++ {
				if !hist(alpha, n, nil, nil, y) {
					return
				}
			}
			if deep {
				hist(alpha, 6, nil, nil, y)
			}
		}, run)
		// every short history at ring positions around the start, the wrap and the second wrap, followed by
		// more traffic and lookups
		var pos []int
		for _, b := range []int{0, 1024, 2048} {
			for d := -10; d <= 10; d++ {
				if b+d >= 0 {
					pos = append(pos, b+d)
				}
			}
		}
		pos = append(pos, 512, 1000, 1536)
		small := []Op{{K: 'S', Key: 0}, {K: 'S', Key: 1}, {K: 'G', Key: 0, Age: S}, {K: 'F', Key: 0}, {K: 'T', Age: 15 * time.Millisecond}, {K: 'G', Key: 1, Age: L}}
		gaps := []int{0, 1, 6, 7, 8, 9, 500, 990, 995, 996, 997, 998, 999, 1100}
		modes := []int{0}
		if deep {
			modes = []int{0, 1, 2}
		}
		h.Enumerate(ctx, "ring positions", func(y func(Case) bool) {
			for _, p := range pos {
				for _, g := range gaps {
					for _, md := range modes {
						for _, first := range []Op{{K: 'S', Key: 0}, {K: 'S', Key: 1}} {
							pre := []Op{{K: 'N', N: p, Mode: 0}, first}
							post := []Op{{K: 'N', N: g, Mode: md}, {K: 'F', Key: 0}, {K: 'G', Key: 0, Age: S}, {K: 'G', Key: 1, Age: L}}
							if !hist(small, 2, pre, post, y) {
								return
							}
						}
					}
				}
			}
		}, run)
		h.Enumerate(ctx, "long traffic", func(y func(Case) bool) {
			for md := 0; md < 3; md++ {
				for p := 0; p < 12; p++ {
					if !y(Case{[]Op{{K: 'N', N: p}, {K: 'S', Key: 0}, {K: 'N', N: 3000, Mode: md}, {K: 'S', Key: 1}, {K: 'N', N: 900, Mode: md}, {K: 'G', Key: 1, Age: L}, {K: 'G', Key: 0, Age: L}, {K: 'T', Age: 2 * L}, {K: 'G', Key: 1, Age: L}, {K: 'F', Key: 1}}}) {
						return
					}
				}
			}
		}, run)
		ctx.Bound("all histories up to 5 operations (thorough 6) over 12; all 2-operation histories over 6 at %d ring positions with 14 amounts of later traffic", len(pos))
		ctx.Assume("time is the virtual clock substituted for time.Now in the cache package", "an entry may be forgotten once 1000 newer operations have touched its shard", "64-bit hash collisions of keys are out of scope")
	})
}
