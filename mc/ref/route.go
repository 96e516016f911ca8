// Package ref holds reference models written from the documentation, independent of the code in /repo.
package ref

import "strings"

// DefaultHost is the documented name of the default host.
const DefaultHost = "DEFAULT"

// Route is one AddRoute call.
type Route struct {
	Host, Path string
	Fallback   bool
	Method     string
	Content    string
}

// Request is what routing looks at.
type Request struct{ Host, Path, Method, CT string }

// Clean is the canonical form of a request path.
func Clean(p string) string {
	var segs []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(segs) > 0 {
				segs = segs[:len(segs)-1]
			}
		default:
			segs = append(segs, s)
		}
	}
	out := "/" + strings.Join(segs, "/")
	if len(segs) > 0 && strings.HasSuffix(p, "/") {
		out += "/"
	}
	return out
}

// StripPort is the host without the port.
func StripPort(hst string) string {
	if strings.HasPrefix(hst, "[") {
		if i := strings.Index(hst, "]:"); i > 0 {
			return hst[1:i]
		}
		return hst
	}
	if strings.Count(hst, ":") == 1 {
		return hst[:strings.Index(hst, ":")]
	}
	return hst
}

func normRoute(p string) string {
	if p != "/" {
		p = strings.TrimSuffix(p, "/")
	}
	return p
}

// Lookup finds the registered path that governs path on host: exact, else the nearest ancestor.
func Lookup(t []Route, host, path string) (found, exact bool, at string) {
	has := func(p string) bool {
		for _, r := range t {
			if r.Host == host && normRoute(r.Path) == p {
				return true
			}
		}
		return false
	}
	if has(path) {
		return true, true, path
	}
	p := strings.TrimSuffix(path, "/") // "/a/" is below "/a"
	if p != path && p != "" && has(p) {
		return true, false, p
	}
	for p != "" {
		p = p[:strings.LastIndex(p, "/")]
		q := p
		if q == "" {
			q = "/"
		}
		if has(q) {
			return true, false, q
		}
	}
	return false, false, ""
}

// Resolve returns the status and the index of the route served.
func Resolve(t []Route, q Request) (int, int) {
	host, path := StripPort(q.Host), Clean(q.Path)
	hf, he, hp := Lookup(t, host, path)
	df, de, dp := Lookup(t, DefaultHost, path)
	var useHost, at = "", ""
	exact := false
	switch {
	case !hf && !df:
		return 404, -1
	case hf && (he || !df || !de):
		useHost, at, exact = host, hp, he
	default:
		useHost, at, exact = DefaultHost, dp, de
	}
	best := -1
	for i, r := range t {
		if r.Host == useHost && normRoute(r.Path) == at && r.Method == q.Method {
			best = i // the last registration wins
		}
	}
	if best < 0 {
		return 405, -1
	}
	if !Accepts(t[best].Content, q.CT) {
		return 406, -1
	}
	if !exact && !t[best].Fallback {
		return 404, -1
	}
	return 200, best
}

// Accepts tells whether a request content type is allowed by a route.
func Accepts(content, ct string) bool {
	if content == "*" {
		return true
	}
	if i := strings.Index(ct, ";"); i >= 0 {
		ct = ct[:i]
	}
	for _, c := range strings.Split(content, ";") {
		if c == ct {
			return true
		}
	}
	return false
}
