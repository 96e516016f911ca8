// Package res holds the result format shared by the checks and the driver.
package res

import "encoding/json"

// Violation is one broken case.
type Violation struct {
	Key      string          `json:"key"`    // identifies the kind of failure and the failing input/history
	Detail   string          `json:"detail"` // what was observed against what was expected
	Group    string          `json:"group"`
	Case     json.RawMessage `json:"case,omitempty"`
	NoReplay bool            `json:"no_replay,omitempty"`
	Shard    int             `json:"shard"` // of Shards: the process that found it
	Shards   int             `json:"shards"`
	History  bool            `json:"history,omitempty"` // the case fails only after the cases before it in its process
}

// Result is what one process (or the merge of all) covered.
type Result struct {
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Evaluations int            `json:"evaluations"`
	Validated   int            `json:"validated"`
	Distinct    int            `json:"distinct"`
	Outcomes    map[string]int `json:"outcomes"`
	Samples     []string       `json:"samples"`
	Exhaustive  bool           `json:"exhaustive"`
	Violations  []Violation    `json:"violations"`
	Notes       []string       `json:"notes"`
	Groups      map[string]int `json:"groups"`
	Rule        string         `json:"rule"`
	Bounds      []string       `json:"bounds"`
	Assumptions []string       `json:"assumptions"`
}

// Merge adds r to m.
func Merge(m, r *Result) {
	m.States += r.States
	m.Transitions += r.Transitions
	m.Evaluations += r.Evaluations
	m.Validated += r.Validated
	if m.Outcomes == nil {
		m.Outcomes, m.Groups = map[string]int{}, map[string]int{}
	}
	for k, v := range r.Outcomes {
		m.Outcomes[k] += v
	}
	for k, v := range r.Groups {
		m.Groups[k] += v
	}
	for _, s := range r.Samples {
		if len(m.Samples) < 8 {
			m.Samples = append(m.Samples, s)
		}
	}
	m.Exhaustive = m.Exhaustive && r.Exhaustive
	for _, v := range r.Violations {
		dup := false
		for _, w := range m.Violations {
			dup = dup || w.Key == v.Key
		}
		if !dup && len(m.Violations) < 12 {
			m.Violations = append(m.Violations, v)
		}
	}
	add := func(to *[]string, xs []string, max int) {
		for _, x := range xs {
			dup := false
			for _, y := range *to {
				dup = dup || x == y
			}
			if !dup && len(*to) < max {
				*to = append(*to, x)
			}
		}
	}
	add(&m.Notes, r.Notes, 40)
	add(&m.Bounds, r.Bounds, 60)
	add(&m.Assumptions, r.Assumptions, 60)
	if m.Rule == "" {
		m.Rule = r.Rule
	}
	if m.Distinct < r.Distinct && r.Distinct > 0 {
		m.Distinct = r.Distinct
	}
}
