// C22: configuration. The real server binary is started with every configuration of a family, as JSON and as
// HCL, and must either serve it as it is written or refuse to start.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/hashicorp/hcl"
	"github.com/redmaner/MaguroHTTP/tuna"
	"verif/h"
)

// Case is a base configuration with changes, written in a syntax.
type Case struct {
	Base    string
	Changes []int
	HCL     bool
}

// CutCase is a configuration file cut at a byte.
type CutCase struct {
	Vhost bool
	At    int
}

// ArgCase are command line arguments.
type ArgCase struct{ Args []string }

// LimitCase is a guard section and the allowance that follows from it.
type LimitCase struct {
	Kind  string
	Vhost bool
	Rate  bool // Rate is set
	Burst int  // 0: not set
}

const port = "8080"

// a change edits a configuration; ok says whether the server may start with it.
type change struct {
	name string
	core bool // concerns the core section; otherwise the site
	only string
	ok   bool
	f    func(dir string, core, site h.M)
}

func set(k string, v interface{}) func(string, h.M, h.M) {
	return func(_ string, c, s h.M) {
		m := c
		ks := strings.Split(k, ".")
		if ks[0] == "site" {
			m, ks = s, ks[1:]
		}
		for len(ks) > 1 {
			n, _ := m[ks[0]].(h.M)
			if n == nil {
				n = h.M{}
				m[ks[0]] = n
			}
			m, ks = n, ks[1:]
		}
		if v == nil {
			delete(m, ks[0])
		} else {
			m[ks[0]] = v
		}
	}
}

var changes = []change{
	{"no Port", true, "", false, set("Port", "")},
	{"Port is no number", true, "", false, set("Port", "http-nonsense")},
	{"Port out of range", true, "", false, set("Port", "99999")},
	{"Port as a number", true, "", true, set("Port", 8080)},
	{"Address of another machine", true, "", false, set("Address", "192.0.2.1")},
	{"no LogOut", true, "", false, set("LogOut", nil)},
	{"empty LogOut", true, "", false, set("LogOut", "")},
	{"LogOut to stdout", true, "", true, set("LogOut", "stdout")},
	{"LogOut to stderr", true, "", true, set("LogOut", "stderr")},
	{"LogOut in a missing directory", true, "", false, func(d string, c, _ h.M) { c["LogOut"] = d + "/none/log" }},
	{"LogOut is a directory", true, "", false, func(d string, c, _ h.M) { c["LogOut"] = d }},
	{"LogLevel negative", true, "", false, set("LogLevel", -1)},
	{"LogLevel too high", true, "", false, set("LogLevel", 4)},
	{"LogLevel 3", true, "", true, set("LogLevel", 3)},
	{"empty FileDir", true, "", false, set("FileDir", "")},
	{"FileDir is the root", true, "", false, set("FileDir", "/")},
	{"FileDir without slash", true, "", true, func(d string, c, _ h.M) { c["FileDir"] = d + "/fd" }},
	{"FileDir is a file", true, "", false, func(d string, c, _ h.M) { c["FileDir"] = h.Put(d+"/afile", "") }},
	{"unknown section", true, "", true, set("Nonsense", h.M{"A": "b"})},
	{"AutoCert without certificates", true, "", false, set("TLS", h.M{"Enabled": true, "AutoCert": h.M{"Enabled": true}})},
	{"AutoCert on another port", true, "", false, set("TLS", h.M{"Enabled": true, "AutoCert": h.M{"Enabled": true, "Certificates": []string{"a.test"}}})},
	{"TLS without certificate", true, "", false, set("TLS", h.M{"Enabled": true, "TLSKey": "/dev/null"})},
	{"TLS without key", true, "", false, set("TLS", h.M{"Enabled": true, "TLSCert": "/dev/null"})},
	{"TLS disabled with nonsense", true, "", true, set("TLS", h.M{"Enabled": false, "TLSCert": "nonsense", "AutoCert": h.M{"Enabled": true}})},
	{"virtual hosts defined but disabled", true, "alone", true, set("VirtualHosts", h.M{"a.test": "/nonsense.json", "b.test": ""})},
	{"no virtual hosts", true, "vhost", false, set("VirtualHosts", nil)},
	{"empty virtual hosts", true, "vhost", false, set("VirtualHosts", h.M{})},
	{"virtual host without file", true, "vhost", false, set("VirtualHosts.b.test", "")},
	{"virtual host with missing file", true, "vhost", false, set("VirtualHosts.b.test", "/nonsense.json")},
	{"virtual host with a directory", true, "vhost", false, func(d string, c, _ h.M) { c["VirtualHosts"].(h.M)["b.test"] = d }},
	{"virtual host with invalid file", true, "vhost", false, func(d string, c, _ h.M) { c["VirtualHosts"].(h.M)["b.test"] = h.Put(d+"/bad.json", `{"Serve": ]}`) }},
	{"nested virtual hosting", false, "vhost", false, func(_ string, _, s h.M) { s["Core"] = h.M{"VirtualHosting": true} }},
	{"core section in a virtual host", false, "vhost", true, func(_ string, _, s h.M) { s["Core"] = h.M{"Port": "", "LogLevel": 7} }},
	{"no ServeDir", false, "serve download", false, set("site.Serve.ServeDir", nil)},
	{"empty ServeDir", false, "serve download", false, set("site.Serve.ServeDir", "")},
	{"no ServeIndex", false, "serve download", false, set("site.Serve.ServeIndex", nil)},
	{"empty ServeIndex", false, "serve download", false, set("site.Serve.ServeIndex", "")},
	{"ServeDir without slash", false, "serve download", true, func(d string, _, s h.M) { s["Serve"].(h.M)["ServeDir"] = d + "/www" }},
	{"no rules", false, "proxy", false, set("site.Proxy.Rules", nil)},
	{"empty rules", false, "proxy", false, set("site.Proxy.Rules", h.M{})},
	{"disabled proxy without rules", false, "serve download", true, set("site.Proxy", h.M{"Enabled": false})},
	{"guard with zero values", false, "", true, set("site.Guard.FilterOnIP", true)},
	{"unknown section in a site", false, "", true, set("site.Nonsense", h.M{"x": 1})},
	{"error pages that do not exist", false, "", true, set("site.Errors", h.M{"404": "/nonsense"})},
}

var bases = []string{"alone serve", "alone download", "alone proxy", "vhost serve", "vhost download", "vhost proxy"}

func init() {
	// keys of VirtualHosts contain dots
	for i := range changes {
		c := &changes[i]
		if strings.HasPrefix(c.name, "virtual host without") || strings.HasPrefix(c.name, "virtual host with missing") {
			v := ""
			if strings.Contains(c.name, "missing") {
				v = "/nonsense.json"
			}
			c.f = func(_ string, core, _ h.M) { core["VirtualHosts"].(h.M)["b.test"] = v }
		}
	}
}

// early reports whether a configuration must be refused before anything is written.
func early(c Case) bool {
	for _, i := range c.Changes {
		n := changes[i].name
		if n == "FileDir is the root" || n == "empty FileDir" {
			return true
		}
	}
	return false
}

// applies reports whether a change makes sense for a base configuration.
func applies(c change, base string) bool {
	if c.only == "" {
		return true
	}
	for _, w := range strings.Fields(c.only) {
		if strings.Contains(base, w) {
			return true
		}
	}
	return false
}

// hclText writes a configuration in HCL.
func hclText(m h.M, ind string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := ""
	for _, k := range ks {
		key := k
		if strings.ContainsAny(k, "./") || k[0] >= '0' && k[0] <= '9' {
			key = fmt.Sprintf("%q", k)
		}
		if s, ok := m[k].(h.M); ok {
			out += ind + key + " {\n" + hclText(s, ind+"  ") + ind + "}\n"
		} else {
			b, _ := json.Marshal(m[k])
			out += ind + key + " = " + string(b) + "\n"
		}
	}
	return out
}

func write(path string, m h.M, hcl bool) string {
	if hcl {
		return h.Put(path+".hcl", "# a comment\n"+hclText(m, ""))
	}
	return h.PutJSON(path+".json", m)
}

type world struct {
	ctx *h.Ctx
	up  string
}

func newWorld(ctx *h.Ctx) *world {
	l, err := net.Listen("tcp", h.Loopback()+":0")
	if err != nil {
		panic(err)
	}
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "UPSTREAM "+r.URL.Path) }))
	return &world{ctx, "http://" + l.Addr().String()}
}

// config makes the files of a case below dir and returns the main one.
func (w *world) config(c Case, dir, host string) (file string, ok bool) {
	h.Put(dir+"/www/index.html", "INDEX")
	h.Put(dir+"/www/x.bin", "BIN")
	core := h.Core(dir)
	core["Address"], core["Port"] = host, port
	site := h.M{"Guard": h.Generous()}
	switch strings.Fields(c.Base)[1] {
	case "serve":
		site["Serve"] = h.M{"ServeDir": dir + "/www/", "ServeIndex": "index.html", "Methods": h.M{"/": "GET;HEAD"}}
	case "download":
		site["Serve"] = h.M{"ServeDir": dir + "/www/", "ServeIndex": "/list", "Download": h.M{"Enabled": true, "Exts": []string{".bin"}}}
	case "proxy":
		site["Proxy"] = h.M{"Enabled": true, "Methods": []string{"GET"}, "Rules": h.M{"a.test": w.up}}
	}
	vhost := strings.HasPrefix(c.Base, "vhost")
	ext := ".json"
	if c.HCL {
		ext = ".hcl"
	}
	if vhost {
		core["VirtualHosting"], core["VirtualHosts"] = true, h.M{"a.test": dir + "/site" + ext}
	}
	ok = true
	for _, i := range c.Changes {
		changes[i].f(dir, core, site)
		ok = ok && changes[i].ok
	}
	m := h.M{"Core": core}
	if vhost {
		write(dir+"/site", site, c.HCL)
	} else {
		for k, v := range site {
			m[k] = v
		}
	}
	return write(dir+"/main", m, c.HCL), ok
}

func get(host, target string) string {
	c, err := net.DialTimeout("tcp", host+":"+port, 5*time.Second)
	if err != nil {
		return "ERROR " + err.Error()
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(15 * time.Second))
	io.WriteString(c, "GET "+target+" HTTP/1.1\r\nHost: a.test\r\nConnection: close\r\n\r\n")
	b, err := io.ReadAll(c)
	if err != nil {
		return "ERROR " + err.Error()
	}
	return string(b)
}

// launch starts the binary on a fresh address until the port is free.
func (w *world) launch(mk func(host string) []string) (*h.Proc, bool) {
	for {
		host := h.Loopback()
		p := w.ctx.Start(host, mk(host)...)
		up := p.Ready(port)
		if !up && p.Busy() {
			p.Kill()
			continue
		}
		return p, up
	}
}

func refused(p *h.Proc) string {
	if !p.Ended(15 * time.Second) {
		return "the server neither serves nor ends"
	}
	if p.Code <= 0 {
		return fmt.Sprintf("a refused start ends with status %d", p.Code)
	}
	if p.Err.String()+p.Out.String() == "" {
		return "a refused start says nothing"
	}
	return ""
}

func (w *world) run(c Case) h.Outcome {
	dir := w.ctx.Dir("c")
	defer w.ctx.Remove(dir)
	ok := false
	file := ""
	p, up := w.launch(func(host string) []string {
		file, ok = w.config(c, dir, host)
		return []string{file}
	})
	defer p.Kill()
	bad := ""
	switch {
	case ok && !up:
		bad = "the server does not start with a complete configuration"
	case !ok && up && !p.Ended(3*time.Second):
		bad = "the server starts with an incomplete configuration"
	case !ok:
		bad = refused(p)
		for _, f := range []string{"server.log", "templates", "fd"} {
			if _, err := os.Stat(dir + "/" + f); bad == "" && err == nil && early(c) {
				bad = "a refused start has already written " + f
			}
		}
	default:
		want := map[string]string{"serve": "INDEX", "download": "x.bin", "proxy": "UPSTREAM /"}[strings.Fields(c.Base)[1]]
		if a := get(p.Host, "/"); !strings.HasPrefix(a, "HTTP/1.1 200") || !strings.Contains(a, want) {
			bad = "the configured site is not served\n" + a
		}
		if a := get(p.Host, "/none"); bad == "" && !strings.Contains(c.Base, "proxy") && !strings.HasPrefix(a, "HTTP/1.1 404") {
			bad = "an unknown path is not answered with 404\n" + a
		}
	}
	if bad != "" {
		var names []string
		for _, i := range c.Changes {
			names = append(names, changes[i].name)
		}
		b, _ := os.ReadFile(file)
		return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\n%+v %q\n%s\n%s%s", bad, c, names, b, p.Out.String(), p.Err.String())}
	}
	return h.Outcome{Class: fmt.Sprint("starts: ", ok), Sig: fmt.Sprint(c), States: 2, Transitions: 2, Sample: fmt.Sprintf("%+v", c)}
}

func (w *world) cut(c CutCase) h.Outcome {
	dir := w.ctx.Dir("c")
	defer w.ctx.Remove(dir)
	base := Case{Base: "alone serve"}
	if c.Vhost {
		base.Base = "vhost serve"
	}
	invalid := false
	p, up := w.launch(func(host string) []string {
		file, _ := w.config(base, dir, host)
		f := file
		if c.Vhost {
			f = dir + "/site.json"
		}
		b, _ := os.ReadFile(f)
		b = b[:min(c.At, len(b)-1)]
		os.WriteFile(f, b, 0o644)
		_, err := hcl.ParseBytes(b)
		invalid = err != nil
		return []string{file}
	})
	defer p.Kill()
	bad := ""
	if c.Vhost && c.At == 0 {
		// an empty file is a site without content
		if !up {
			bad = "an empty virtual host does not start"
		} else if a := get(p.Host, "/"); !strings.HasPrefix(a, "HTTP/1.1 404") {
			bad = "an empty virtual host serves something\n" + a
		}
	} else if !invalid {
		// the parser of the configuration language takes some incomplete files for complete ones
		return h.Outcome{Class: "valid for the parser", Sig: fmt.Sprint(c)}
	} else if up && !p.Ended(3*time.Second) {
		bad = "the server starts with an invalid configuration file"
	} else {
		bad = refused(p)
	}
	if bad != "" {
		return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\n%+v\n%s%s", bad, c, p.Out.String(), p.Err.String())}
	}
	return h.Outcome{Class: "refused", Sig: fmt.Sprint(c)}
}

func (w *world) args(c ArgCase) h.Outcome {
	dir := w.ctx.Dir("c")
	defer w.ctx.Remove(dir)
	p := w.ctx.Start("", c.Args...)
	defer p.Kill()
	bad := ""
	if !p.Ended(15 * time.Second) {
		bad = "the server neither serves nor ends"
	} else if out := p.Out.String() + p.Err.String(); out == "" || strings.Contains(out, "panic:") {
		bad = "a start without a usable configuration does not say so"
	} else if len(c.Args) > 0 && p.Code <= 0 {
		bad = fmt.Sprintf("a refused start ends with status %d", p.Code)
	} else if len(c.Args) == 0 && !strings.Contains(out, "config") {
		bad = "a start without arguments does not show the usage"
	}
	if bad != "" {
		return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\n%q\n%s%s", bad, c.Args, p.Out.String(), p.Err.String())}
	}
	return h.Outcome{Class: "refused", Sig: fmt.Sprint(c)}
}

// limits checks the allowance of one client: rates are so low that time does not matter.
func (w *world) limits(c LimitCase) h.Outcome {
	dir := w.ctx.Dir("c")
	defer w.ctx.Remove(dir)
	h.Put(dir+"/www/index.html", "INDEX")
	site := h.M{}
	g := h.M{}
	allowed := 50
	if c.Rate {
		g["Rate"] = 0.001
	}
	if c.Burst > 0 {
		g["RateBurst"], allowed = c.Burst, c.Burst
	}
	if len(g) > 0 {
		site["Guard"] = g
	}
	switch c.Kind {
	case "serve":
		site["Serve"] = h.M{"ServeDir": dir + "/www/", "ServeIndex": "index.html", "Methods": h.M{"/": "GET"}}
	case "download":
		site["Serve"] = h.M{"ServeDir": dir + "/www/", "ServeIndex": "/list", "Download": h.M{"Enabled": true, "Exts": []string{".bin"}}}
	case "proxy":
		site["Proxy"] = h.M{"Enabled": true, "Methods": []string{"GET"}, "Rules": h.M{"a.test": "http://x.test"}}
	}
	core := h.Core(dir)
	core["LogOut"] = "/dev/null"
	m := h.M{"Core": core}
	if c.Vhost {
		core["VirtualHosting"], core["VirtualHosts"] = true, h.M{"a.test": h.PutJSON(dir+"/site.json", site)}
	} else {
		for k, v := range site {
			m[k] = v
		}
	}
	s := h.Server(dir, m)
	s.Transport = ok200{}
	began := time.Now()
	bad := ""
	for n := 1; n <= allowed+3; n++ {
		rec, pan := h.Serve(s.Router, h.Req("GET", "/", "a.test", "10.0.0.1:1", "User-Agent", "x"))
		if pan != "" {
			return h.Outcome{Class: "panic", Bad: pan}
		}
		want := 200
		if n > allowed {
			want = 429
		}
		// the default rate gives back one request every 600 ms
		if n > allowed && !c.Rate && time.Since(began) > 400*time.Millisecond {
			break
		}
		if rec.Code != want {
			bad = fmt.Sprintf("request %d of a client is answered %d, must be %d", n, rec.Code, want)
			break
		}
	}
	if d := tuna.NewConfig(); bad == "" && (d.Core.Port != "80" || d.Guard.Rate != 100 || d.Guard.RateBurst != 50 || d.Core.TLS.HSTS.MaxAge != 31557600 || d.Core.ReadTimeout != 30 || d.Core.WriteTimeout != 30 || d.Core.ReadHeaderTimeout != 8 || d.Core.TLS.Enabled || d.Core.Metrics.Enabled || d.Core.VirtualHosting) {
		bad = fmt.Sprintf("the defaults differ: %+v", d)
	}
	if bad != "" {
		return h.Outcome{Class: "differs", Bad: fmt.Sprintf("the rate limit in force is not the configured or default one\n%s\n%+v", bad, c)}
	}
	return h.Outcome{Class: fmt.Sprint("allowance ", allowed), Sig: fmt.Sprint(c), Transitions: allowed + 3}
}

type ok200 struct{}

func (ok200) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("up")), Request: r}, nil
}

func main() {
	h.Main("C22", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is a configuration with changes in a syntax, a cut configuration file, command line arguments or a guard section; distinct = different cases"
		w := newWorld(ctx)
		h.Enumerate(ctx, "arguments", h.List([]ArgCase{{nil}, {[]string{"/none/config.json"}}, {[]string{"/"}}, {[]string{""}}, {[]string{"-h"}}, {[]string{"/dev/null"}}}), w.args)
		h.Enumerate(ctx, "limits", func(y func(LimitCase) bool) {
			for _, k := range []string{"serve", "download", "proxy"} {
				for _, v := range []bool{false, true} {
					for _, r := range []bool{false, true} {
						for _, b := range []int{0, 1, 3, 50, 60} {
							if !y(LimitCase{k, v, r, b}) {
								return
							}
						}
					}
				}
			}
		}, w.limits)
		h.Enumerate(ctx, "several sites", apartCases(ctx), w.together)
		h.Enumerate(ctx, "configurations", func(y func(Case) bool) {
			for _, b := range bases {
				for _, hcl := range []bool{false, true} {
					if !y(Case{b, nil, hcl}) {
						return
					}
					for i, c := range changes {
						if !applies(c, b) {
							continue
						}
						if !y(Case{b, []int{i}, hcl}) {
							return
						}
						for j := i + 1; j < len(changes); j++ {
							// pairs of changes that refuse say no more than one of them
							if d := changes[j]; !applies(d, b) || !c.ok && !d.ok && !ctx.Thorough() || clash(c, d) {
								continue
							}
							if !y(Case{b, []int{i, j}, hcl}) {
								return
							}
						}
					}
				}
			}
		}, w.run)
		h.Enumerate(ctx, "cut files", func(y func(CutCase) bool) {
			base := ctx.Dir("len")
			main, _ := w.config(Case{Base: "alone serve"}, base, "127.200.200.200")
			w.config(Case{Base: "vhost serve"}, base+"/v", "127.200.200.200")
			n1, _ := os.Stat(main)
			n2, _ := os.Stat(base + "/v/site.json")
			ctx.Remove(base)
			for i := 0; i < int(n1.Size()); i++ {
				if !y(CutCase{false, i}) {
					return
				}
			}
			for i := 0; i < int(n2.Size()); i++ {
				if !y(CutCase{true, i}) {
					return
				}
			}
		}, w.cut)
		ctx.Bound("%d kinds of sites alone and as virtual host, every single change of %d and every pair of changes of which one is harmless (thorough: every pair), in JSON and HCL; a main and a virtual host file cut at every byte; default and configured rate limits; a site of %d kinds with every one of %d features (thorough: and two of them) next to 4 others without", len(bases)/2, len(changes), len(kinds), len(features))
		ctx.Assume("a refusal is a process that ends with a non-zero status, says something and never answers a request")
	})
}

// clash reports whether two changes set the same thing, so that one undoes the other.
func clash(a, b change) bool {
	for _, k := range []string{"Port", "LogOut", "LogLevel", "FileDir", "TLS", "AutoCert", "ServeDir", "ServeIndex", "rules", "virtual host", "core section", "nested"} {
		if strings.Contains(a.name, k) && strings.Contains(b.name, k) {
			return true
		}
	}
	tls := func(c change) bool { return strings.Contains(c.name, "TLS") || strings.Contains(c.name, "AutoCert") }
	return tls(a) && tls(b) || strings.Contains(a.name, "virtual host") && strings.Contains(b.name, "virtual host") || strings.Contains(a.name+b.name, "nested") && strings.Contains(a.name+b.name, "core section")
}
