package vsched

import "time"

// Stats counts what an exploration covered.
type Stats struct {
	Executions int
	Points     int // scheduling decisions with more than one enabled thread, over all executions
	Steps      int
	MaxPoints  int // decisions in the longest execution
	Bound      int
	Complete   bool // every execution within the bound was run
}

// Add merges.
func (s *Stats) Add(o Stats) {
	s.Executions += o.Executions
	s.Points += o.Points
	s.Steps += o.Steps
	if o.MaxPoints > s.MaxPoints {
		s.MaxPoints = o.MaxPoints
	}
}

// Explore runs all executions with at most bound preemptions. run performs one execution for a prefix; it
// returns false to stop. The alternatives of the root execution are dealt to the shards. Exploration is depth first with the deviation-free execution first.
func Explore(bound int, deadline time.Time, shard, shards int, run func(prefix []int) (*Exec, bool)) Stats {
	st := Stats{Bound: bound, Complete: true}
	stack := [][]int{{}}
	root := true
	for len(stack) > 0 {
		if time.Now().After(deadline) {
			st.Complete = false
			return st
		}
		prefix := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		e, ok := run(prefix)
		st.Executions++
		st.Points += len(e.Points)
		st.Steps += e.Steps
		if len(e.Points) > st.MaxPoints {
			st.MaxPoints = len(e.Points)
		}
		if !ok {
			st.Complete = false
			return st
		}
		if len(e.Points) < len(prefix) {
			panic("vsched: replay ended before its last choice")
		}
		cost := 0
		for i := 0; i < len(prefix); i++ {
			if e.Points[i].Cur && e.Points[i].Chosen != 0 {
				cost++
			}
		}
		// push in reverse so that the earliest deviation is explored first
		var alts [][]int
		for i := len(prefix); i < len(e.Points); i++ {
			p := e.Points[i]
			c := cost
			if p.Cur {
				c++
			}
			if c > bound {
				continue
			}
			for alt := 1; alt < p.N; alt++ {
				np := make([]int, i+1)
				for j := 0; j < i; j++ {
					np[j] = e.Points[j].Chosen
				}
				np[i] = alt
				alts = append(alts, np)
			}
		}
		for j := len(alts) - 1; j >= 0; j-- {
			if root && j%shards != shard {
				continue
			}
			stack = append(stack, alts[j])
		}
		root = false
	}
	return st
}
