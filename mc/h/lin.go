package h

import (
	"fmt"
	"sort"
	"strings"

	"verif/vsched"
)

// LinOp is one operation of a concurrent history. Got is what the implementation answered.
type LinOp struct {
	Name       string
	Start, End int64
	Got        string
}

// Do runs f as the operation and records its interval and answer.
func (o *LinOp) Do(f func() string) {
	o.Start = vsched.Stamp()
	o.Got = f()
	o.End = vsched.Stamp()
}

// Linearizable looks for an order of the operations that respects their intervals and in which the
// sequential model gives every answer. apply returns the next state and the answers the model allows;
// ok tells whether got is among them.
func Linearizable[S comparable](ops []*LinOp, init S, apply func(s S, op *LinOp) (next S, ok bool)) bool {
	n := len(ops)
	if n > 20 {
		panic("history too long")
	}
	type node struct {
		done uint32
		s    S
	}
	seen := map[node]bool{}
	var rec func(nd node) bool
	rec = func(nd node) bool {
		if nd.done == 1<<n-1 {
			return true
		}
		if seen[nd] {
			return false
		}
		seen[nd] = true
		for i, o := range ops {
			if nd.done&(1<<i) != 0 {
				continue
			}
			minimal := true
			for j, p := range ops {
				if j != i && nd.done&(1<<j) == 0 && p.End < o.Start {
					minimal = false
				}
			}
			if !minimal {
				continue
			}
			if s, ok := apply(nd.s, o); ok && rec(node{nd.done | 1<<i, s}) {
				return true
			}
		}
		return false
	}
	return rec(node{0, init})
}

// History prints a history.
func History(ops []*LinOp) string {
	o := append([]*LinOp{}, ops...)
	sort.Slice(o, func(i, j int) bool { return o[i].Start < o[j].Start })
	var b strings.Builder
	base := int64(0)
	if len(o) > 0 {
		base = o[0].Start
	}
	for _, x := range o {
		fmt.Fprintf(&b, "[%d-%d] %s = %s\n", x.Start-base, x.End-base, x.Name, x.Got)
	}
	return b.String()
}

// Answers is the outcome class of a history: the answers in the order of ops.
func Answers(ops []*LinOp) string {
	var a []string
	for _, o := range ops {
		a = append(a, o.Name+"="+o.Got)
	}
	return strings.Join(a, " ")
}
