package main

import (
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"verif/h"
)

// ApartCase is a server with a virtual host that has features and others that leave them out.
type ApartCase struct {
	Kind     string // of the site with the features
	Features []int
	Other    string // kind of the sites without
	Main     bool   // the main configuration has the sections of the first site too
}

var kinds = []string{"serve", "download", "proxy", "empty"}

type feature struct {
	name string
	f    func(dir string, site h.M)
}

func sect(site h.M, k string) h.M {
	m, _ := site[k].(h.M)
	if m == nil {
		m = h.M{}
		site[k] = m
	}
	return m
}

func firewall(black, sub bool, rules h.M) func(string, h.M) {
	return func(_ string, s h.M) {
		sect(s, "Guard")["Firewall"] = h.M{"Enabled": true, "Blacklisting": black, "Subpath": sub, "Rules": rules}
	}
}

var features = []feature{
	{"headers", func(_ string, s h.M) { sect(s, "Serve")["Headers"] = h.M{"X-F": "1", "X-Frame-Options": "ALLOW"} }},
	{"methods", func(_ string, s h.M) { sect(s, "Serve")["Methods"] = h.M{"/": "GET;POST", "/x.txt": "PUT"} }},
	{"response types", func(_ string, s h.M) {
		sect(s, "Serve")["MIMETypes"] = h.M{"ResponseTypes": h.M{".txt": "x/y", ".bin": "x/z"}}
	}},
	{"request types", func(_ string, s h.M) {
		sect(s, "Serve")["MIMETypes"] = h.M{"RequestTypes": h.M{"/": "odd/x", "/x.txt": "odd/x"}}
	}},
	{"other directory", func(d string, s h.M) { sect(s, "Serve")["ServeDir"] = d + "/www2/" }},
	{"other index", func(_ string, s h.M) { sect(s, "Serve")["ServeIndex"] = "x.txt" }},
	{"extensions", func(_ string, s h.M) {
		sect(s, "Serve")["Download"] = h.M{"Enabled": true, "Exts": []string{".txt", ".bin"}}
	}},
	{"error page 404", func(d string, s h.M) { sect(s, "Errors")["404"] = d + "/e404.html" }},
	{"error page 405", func(d string, s h.M) { sect(s, "Errors")["405"] = d + "/e405.html" }},
	{"error page 502", func(d string, s h.M) { sect(s, "Errors")["502"] = d + "/e502.html" }},
	{"blacklist", firewall(true, false, h.M{"/": []string{"10.0.0.1"}})},
	{"whitelist", firewall(false, true, h.M{"/": []string{"10.0.0.2"}, "/x.txt": []string{"10.0.0.3"}})},
	{"client addresses", func(d string, s h.M) {
		firewall(true, true, h.M{"/": []string{"10.0.0.1"}})(d, s)
		sect(s, "Guard")["FilterOnIP"] = true
	}},
	{"small burst", func(_ string, s h.M) { sect(s, "Guard")["RateBurst"], sect(s, "Guard")["Rate"] = 2, 0.001 }},
	{"proxy headers", func(_ string, s h.M) { sect(s, "Proxy")["Headers"] = h.M{"X-P": "1"} }},
	{"proxy methods", func(_ string, s h.M) { sect(s, "Proxy")["Methods"] = []string{"PUT", "DELETE"} }},
	{"proxy rules", func(_ string, s h.M) { sect(s, "Proxy")["Rules"] = h.M{"a.test": "http://up9.test"} }},
	{"proxy switched off", func(_ string, s h.M) { sect(s, "Proxy")["Enabled"] = false }},
}

// fits reports whether a site of a kind with the features is complete.
func fits(kind string, fs []int) bool {
	for _, f := range fs {
		switch n := features[f].name; {
		case n == "proxy switched off":
		case strings.HasPrefix(n, "proxy") != (kind == "proxy") && kind != "empty":
			if strings.HasPrefix(n, "proxy") || n == "headers" || strings.HasPrefix(features[f].name, "other") || n == "methods" || strings.HasSuffix(n, "types") || n == "extensions" {
				return false
			}
		}
		if kind == "empty" && (features[f].name == "methods" || features[f].name == "extensions") {
			return false
		}
	}
	return true
}

func plain(kind, dir string) h.M {
	s := h.M{}
	switch kind {
	case "serve":
		s["Serve"] = h.M{"ServeDir": dir + "/www/", "ServeIndex": "index.html", "Methods": h.M{"/": "GET;HEAD"}}
	case "download":
		s["Serve"] = h.M{"ServeDir": dir + "/www/", "ServeIndex": "/list", "Download": h.M{"Enabled": true, "Exts": []string{".bin"}}}
	}
	return s
}

func proxied(s h.M, host string) h.M {
	p := sect(s, "Proxy")
	p["Enabled"], p["Methods"], p["Rules"] = true, []string{"GET"}, h.M{host: "http://up-" + host}
	return s
}

type echo struct{}

func (echo) RoundTrip(r *http.Request) (*http.Response, error) {
	if r.URL.Path == "/x.bin" {
		return nil, fmt.Errorf("no upstream")
	}
	b := fmt.Sprintf("%s %s %v", r.Method, r.URL, r.Header)
	return &http.Response{StatusCode: 200, ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(b)), Request: r}, nil
}

// answers are those of one host to a fixed set of requests of three clients.
func answers(s *tuna.Server, host string) []string {
	var out []string
	for _, client := range []string{"10.0.0.1", "10.0.0.2", "10.0.0.3"} {
		for _, q := range []string{"GET / ", "GET /x.txt ", "GET /x.bin ", "HEAD /x.txt ", "GET /none ", "POST / ", "PUT /x.txt ", "DELETE / ", "GET / odd/x", "POST /x.txt odd/x"} {
			f := strings.Split(q, " ")
			hd := []string{"User-Agent", "x"}
			if f[2] != "" {
				hd = append(hd, "Content-Type", f[2])
			}
			rec, pan := h.Serve(s.Router, h.Req(f[0], f[1], host, client+":1", hd...))
			var l []string
			for k, v := range rec.Result().Header {
				if k != "Date" && k != "Last-Modified" {
					l = append(l, fmt.Sprintf("%s: %q", k, v))
				}
			}
			sort.Strings(l)
			out = append(out, strings.ReplaceAll(fmt.Sprintf("%s by %s -> %d %q %s%s", q, client, rec.Code, rec.Body, l, pan), host, "HOST"))
		}
	}
	return out
}

// build makes a server of the hosts.
func buildHosts(dir string, hosts map[string]h.M, main h.M) *tuna.Server {
	core := h.Core(dir)
	core["LogOut"] = "/dev/null"
	vh := h.M{}
	for n, s := range hosts {
		vh[n] = h.PutJSON(dir+"/"+n+".json", s)
	}
	core["VirtualHosting"], core["VirtualHosts"] = true, vh
	m := h.M{"Core": core}
	for k, v := range main {
		m[k] = v
	}
	s := h.Server(dir, m)
	s.Transport = echo{}
	return s
}

// together compares the answers of sites that share a server with the answers they give alone.
func (w *world) together(c ApartCase) h.Outcome {
	dir := w.ctx.Dir("c")
	defer w.ctx.Remove(dir)
	for _, d := range []string{"www", "www2"} {
		for _, f := range []string{"index.html", "x.txt", "x.bin"} {
			h.Put(dir+"/"+d+"/"+f, d+" "+f)
		}
	}
	for _, e := range []string{"404", "405", "502"} {
		h.Put(dir+"/e"+e+".html", "PAGE "+e)
	}
	mk := func(kind, host string, fs []int) h.M {
		s := plain(kind, dir)
		if kind == "proxy" {
			proxied(s, host)
		}
		for _, f := range fs {
			features[f].f(dir, s)
		}
		return s
	}
	hosts := map[string]h.M{"a.test": mk(c.Kind, "a.test", c.Features)}
	for i := 0; i < 4; i++ {
		n := fmt.Sprintf("b%d.test", i)
		hosts[n] = mk(c.Other, n, nil)
	}
	main := h.M{}
	if c.Main {
		main = mk(c.Kind, "a.test", c.Features)
	}
	alone := map[string][]string{}
	for _, n := range []string{"a.test", "b0.test"} {
		alone[n] = answers(buildHosts(dir+"/alone", map[string]h.M{n: hosts[n]}, nil), n)
	}
	// the order in which the configurations are read is the runtime's choice
	for k := 0; k < 4; k++ {
		s := buildHosts(dir+"/all", hosts, main)
		for _, n := range []string{"b1.test", "a.test", "b0.test", "b3.test", "b2.test"} {
			want := alone[n]
			if want == nil {
				want = alone["b0.test"]
			}
			for i, a := range answers(s, n) {
				if a != want[i] {
					var names []string
					for _, f := range c.Features {
						names = append(names, features[f].name)
					}
					return h.Outcome{Class: "differs", Bad: fmt.Sprintf("a virtual host answers differently when it shares the server\n%+v %q\n%s\nanswers  %.1500s\nbut alone %.1500s", c, names, n, a, want[i])}
				}
			}
		}
	}
	cl := "same"
	if fmt.Sprint(alone["a.test"]) != fmt.Sprint(alone["b0.test"]) {
		cl = "same, and the sites differ"
	}
	return h.Outcome{Class: cl, Sig: fmt.Sprint(c), States: 6, Transitions: 4 * 5 * 30, Sample: fmt.Sprintf("%+v", c)}
}

func apartCases(ctx *h.Ctx) func(func(ApartCase) bool) {
	return func(y func(ApartCase) bool) {
		for _, k := range kinds {
			for _, o := range kinds {
				for _, main := range []bool{false, true} {
					emit := func(fs ...int) bool {
						return !fits(k, fs) || y(ApartCase{k, fs, o, main})
					}
					if !emit() {
						return
					}
					for i := range features {
						if !emit(i) {
							return
						}
						for j := 0; j < i; j++ {
							if (ctx.Thorough() || !main && k == o) && !emit(j, i) {
								return
							}
						}
					}
				}
			}
		}
	}
}
