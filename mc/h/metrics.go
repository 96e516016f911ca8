package h

import (
	"fmt"
	"html"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Counts is what a metrics page or file says.
type Counts struct {
	Total int
	Paths map[string]int // "code host/path" -> count
}

// String prints the counts in a fixed order.
func (c Counts) String() string {
	var l []string
	for k, v := range c.Paths {
		l = append(l, fmt.Sprintf("%q:%d", k, v))
	}
	sort.Strings(l)
	return fmt.Sprintf("total %d {%s}", c.Total, strings.Join(l, " "))
}

// Add returns c with the given answers counted.
func (c Counts) Add(keys ...string) Counts {
	n := Counts{c.Total + len(keys), map[string]int{}}
	for k, v := range c.Paths {
		n.Paths[k] = v
	}
	for _, k := range keys {
		n.Paths[k]++
	}
	return n
}

var (
	totalRe   = regexp.MustCompile(`Total requests:</b> (\d+)`)
	sectionRe = regexp.MustCompile(`(?s)<b>(\d+)</b><ul>(.*?)</ul>`)
	itemRe    = regexp.MustCompile(`(?s)<li>Amount: (\d+) - Path: (.*?)</li>`)
	tagRe     = regexp.MustCompile(`(?s)<[^>]*>?`)
)

var pageTags = map[string]bool{"<h1>": true, "</h1>": true, "<br>": true, "<b>": true, "</b>": true, "<ul>": true, "</ul>": true, "<li>": true, "</li>": true, "</div>": true, "</body>": true, "</html>": true}

// ParseMetrics reads a metrics page. bad says what is wrong with it.
func ParseMetrics(page string) (c Counts, bad string) {
	c.Paths = map[string]int{}
	i := strings.Index(page, "<h1>")
	if i < 0 {
		return c, "not a metrics page: " + page
	}
	body := page[i:]
	for _, t := range tagRe.FindAllString(body, -1) {
		if !pageTags[t] {
			return c, "markup from a request on the metrics page\n" + t
		}
	}
	m := totalRe.FindStringSubmatch(body)
	if m == nil {
		return c, "the metrics page shows no total\n" + body
	}
	c.Total, _ = strconv.Atoi(m[1])
	for _, s := range sectionRe.FindAllStringSubmatch(body, -1) {
		for _, it := range itemRe.FindAllStringSubmatch(s[2], -1) {
			n, _ := strconv.Atoi(it[1])
			k := s[1] + " " + html.UnescapeString(it[2])
			if _, dup := c.Paths[k]; dup {
				return c, "an entry twice on the metrics page\n" + k
			}
			c.Paths[k] = n
		}
	}
	return c, ""
}

// MetricsCore adds collected metrics (kept in dir/metrics.json, user u, password p) to a core section.
func MetricsCore(core M, dir string) M {
	core["TLS"] = M{"Enabled": true, "TLSCert": dir + "/c.pem", "TLSKey": dir + "/k.pem"}
	core["Metrics"] = M{"Enabled": true, "Path": "/metrics", "Out": dir + "/metrics.json", "Users": M{"u": "p"}}
	return core
}

// MetricsAuth is the Authorization header for MetricsCore.
const MetricsAuth = "Basic dTpw"
