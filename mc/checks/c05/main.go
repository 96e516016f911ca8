// C05: guards cover every configured route. Every combination of site kinds, firewalls and limits is loaded as
// a real server configuration; every client asks every path of every site, and the content of a site appears
// exactly when that site's own firewall and limit allow it.
package main

import (
	"fmt"
	"net/http"
	"path/filepath"
	"strings"

	"io"

	"verif/h"
	"verif/ref"
)

// Site is one site.
type Site struct {
	Kind string // serve, download, proxy
	FW   int    // index into firewalls
	Rate int    // index into rates
}

// Case is a server: one site, or two virtual hosts.
type Case struct {
	Sites []Site
	Vhost bool
}

type fw struct {
	On, Black, Sub bool
	Rules          map[string][]string
}

var firewalls = []fw{
	{},
	{On: true, Black: true, Rules: map[string][]string{"/": {"10.0.0.1"}}},
	{On: true, Black: false, Rules: map[string][]string{"/": {"10.0.0.1"}}},
	{On: true, Black: true, Rules: map[string][]string{"/a": {"*"}, "/b": {"10.0.0.2"}}},
	{On: true, Black: false, Sub: true, Rules: map[string][]string{"/": {"*"}, "/a": {"10.0.0.2"}}},
	{On: true, Black: true, Sub: true, Rules: map[string][]string{"/": {"*"}}},
	{On: true, Black: true},
	{On: true, Black: false},
}

var hosts = []string{"one.test", "two.test"}

type upstream struct{}

func (upstream) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("CONTENT-of-" + r.URL.Host))}, nil
}

var paths = []string{"/", "/a/x.html", "/b/x.html", "/b/y.html", "/c/d/x.html", "/only"}

func section(dir, name string, s Site) h.M {
	sd := filepath.Join(dir, name)
	for _, p := range []string{"/index.html", "/a/x.html", "/b/x.html", "/b/y.html", "/c/d/x.html", "/only"} {
		h.Put(filepath.Join(sd, p), "CONTENT-of-"+name)
	}
	f := firewalls[s.FW]
	g := h.M{"Rate": 600000000, "RateBurst": 1000000}
	if s.Rate > 0 {
		g = h.M{"Rate": 0.0001, "RateBurst": s.Rate, "FilterOnIP": true}
	}
	if f.On {
		x := h.M{"Enabled": true, "Blacklisting": f.Black, "Subpath": f.Sub}
		if f.Rules != nil {
			x["Rules"] = f.Rules
		}
		g["Firewall"] = x
	}
	m := h.M{"Guard": g}
	switch s.Kind {
	case "serve":
		m["Serve"] = h.M{"ServeDir": sd, "ServeIndex": "index.html", "Methods": h.M{"/": "GET", "/a/": "GET;POST", "/b": "GET", "/b/x.html": "GET", "/b/y.html": "POST;GET", "/only": "GET"}}
	case "download":
		m["Serve"] = h.M{"ServeDir": sd, "ServeIndex": "/index.html", "Download": h.M{"Enabled": true, "Exts": []string{".html"}}}
	case "proxy":
		m["Proxy"] = h.M{"Enabled": true, "Rules": h.M{name: "http://" + name, "alt." + name: "http://" + name}, "Methods": []string{"GET", "POST"}}
	}
	return m
}

func run(ctx *h.Ctx) func(Case) h.Outcome {
	return func(c Case) h.Outcome {
		dir := ctx.Dir("site")
		defer ctx.Remove(dir)
		core := h.Core(dir)
		core["LogOut"] = "/dev/null"
		cfg := h.M{"Core": core}
		if c.Vhost {
			vh := h.M{}
			for i, s := range c.Sites {
				v := section(dir, hosts[i], s)
				vh[hosts[i]] = h.PutJSON(filepath.Join(dir, hosts[i]+".json"), v)
				if s.Kind == "proxy" {
					vh["alt."+hosts[i]] = vh[hosts[i]]
				}
			}
			core["VirtualHosting"], core["VirtualHosts"] = true, vh
		} else {
			for k, v := range section(dir, hosts[0], c.Sites[0]) {
				cfg[k] = v
			}
		}
		s := h.Server(dir, cfg)
		s.Transport = upstream{}
		n, shown, refused, limited := 0, 0, 0, 0
		spent := map[string]int{} // site+client -> tokens taken
		for round := 0; round < 2; round++ {
			for i, st := range c.Sites {
				names := []string{hosts[i]}
				if st.Kind == "proxy" && (!c.Vhost || st.Rate == 0) {
					names = append(names, "alt."+hosts[i]) // under virtual hosting alt is a site of its own, with its own limit
				}
				for _, hn := range names {
					for _, p := range paths {
						for _, cl := range []string{"10.0.0.1", "10.0.0.2", "10.0.0.3"} {
							for _, m := range []string{"GET", "POST"} {
								if m == "POST" && (st.Kind == "download" || st.Kind == "serve" && !(strings.HasPrefix(p, "/a/") || p == "/b/y.html")) {
									continue
								}
								if st.Kind == "download" && p == "/" {
									// the index: it lists, it has no content of its own
								}
								w, pan := h.Serve(s.Router, h.Req(m, p, hn, cl+":4242"))
								n++
								if pan != "" {
									return h.Outcome{Bad: "panic\n" + pan}
								}
								body := w.Body.String()
								content := strings.Contains(body, "CONTENT-of-"+hosts[i]) || st.Kind == "download" && p == "/" && strings.Contains(body, "Downloads")
								f := firewalls[st.FW]
								allowed := !f.On || ref.Firewall(f.Black, f.Sub, f.Rules, cl, p)
								want := 200
								if !allowed {
									want = 403
									refused++
								} else if st.Rate > 0 {
									k := fmt.Sprint(i, cl)
									if spent[k] >= st.Rate {
										want = 429
										limited++
									} else {
										spent[k]++
									}
								}
								if want == 200 {
									shown++
								}
								if w.Code != want || content != (want == 200) {
									what := map[int]string{200: "content that firewall and limit allow is not served", 403: "a client the site's firewall refuses is not answered 403", 429: "a client over the site's limit is not answered 429"}[want]
									return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\nsite %+v (%s) of %+v, firewall %+v: %s %s from %s (request %d): status %d, content %v; expected %d", what, st, hn, c, f, m, p, cl, n, w.Code, content, want)}
								}
							}
						}
					}
				}
			}
		}
		return h.Outcome{Class: fmt.Sprintf("%d sites", len(c.Sites)), Sig: fmt.Sprint(c), States: n, Transitions: n, Sample: fmt.Sprintf("%+v: %d served, %d refused, %d limited", c, shown, refused, limited)}
	}
}

func main() {
	h.Main("C05", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is a server configuration (one site or two virtual hosts, each with its kind, firewall and limit); every client asks every path of every site twice; distinct = different configurations"
		kinds := []string{"serve", "download", "proxy"}
		rates := []int{0, 1, 3}
		var sites []Site
		for _, k := range kinds {
			for f := range firewalls {
				for _, r := range rates {
					sites = append(sites, Site{k, f, r})
				}
			}
		}
		r := run(ctx)
		h.Enumerate(ctx, "single", func(y func(Case) bool) {
			for _, s := range sites {
				if !y(Case{[]Site{s}, false}) || !y(Case{[]Site{s}, true}) {
					return
				}
			}
		}, r)
		h.Enumerate(ctx, "pairs", func(y func(Case) bool) {
			for _, a := range sites {
				for _, b := range sites {
					if !y(Case{[]Site{a, b}, true}) {
						return
					}
				}
			}
		}, r)
		ctx.Bound("3 site kinds x 8 firewalls x 3 limits, alone, as the only virtual host, and in all pairs of virtual hosts; 3 clients x 6 paths x 2 methods, twice")
		ctx.Assume("limits refill so slowly (0.0001 per minute) that no token is added during a case")
	})
}
