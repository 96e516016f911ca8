// C26: the pages of the server are made from its templates. The real server binary is started over every state of the
// two templates, and over every history of such states.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"verif/h"
)

// Case is a history of states of the two templates; the server is started once over each.
type Case struct {
	Kind   string
	States [][2]int // error.html, download.html
	Edit   int      // state both are put into while the server runs, or -1
}

const port = "8080"

// how a template turns out
const (
	fine   = iota // the page is the template with the content in it
	broken        // no page can be composed
	refuse        // the server may not start
)

type state struct {
	name string
	kind int
	made bool // the server has to create it
	text string
}

// X stands for the content
var states = []state{
	{"not there", fine, true, ""},
	{"text", fine, false, "A{{.X}}B"},
	{"page", fine, false, "<!doctype html><html><head><style>p{color:red}</style><script>var x = 1;</script></head><body class=\"c\">\n{{.X}}\n</body></html>\n"},
	{"twice", fine, false, "{{.X}} and {{.X}}"},
	{"without content", fine, false, "nothing to see"},
	{"line ends", fine, false, "A\r\n\t{{.X}}\r\n\xc3\xa9"},
	{"trimmed", fine, false, "A {{- .X -}} B"},
	{"condition", fine, false, "{{if .X}}yes {{.X}}{{else}}no{{end}}"},
	{"own block", fine, false, "{{define \"x\"}}d{{end}}A{{.X}}{{template \"x\"}}"},
	{"long", fine, false, strings.Repeat("long text ", 60000) + "{{.X}}" + strings.Repeat("long text ", 60000)},
	{"link", fine, false, "L{{.X}}L"},
	{"broken link", fine, true, ""},
	{"empty", fine, false, ""},
	{"unknown field", broken, false, "HEAD {{.X}}{{.Nope}} TAIL"},
	{"field of the content", broken, false, "HEAD{{.X.Y}}TAIL"},
	{"unknown block", broken, false, "HEAD {{template \"none\"}} TAIL"},
	{"open tag", broken, false, "HEAD {{if .X}}<a href=\"{{end}}{{.X}}"},
	{"content in a script", broken, false, "HEAD <script>`{{if .X}}`{{end}}</script>{{.X}}"},
	{"long and broken", broken, false, strings.Repeat("long text ", 2000) + "{{.X}}{{.Nope}}"},
	{"no template", refuse, false, "A{{.X"},
	{"unknown function", refuse, false, "A{{foo .X}}"},
	{"open condition", refuse, false, "A{{if .X}}"},
	{"unreadable", refuse, false, "A{{.X}}B"},
	{"directory", refuse, false, ""},
}

var names = [2]string{"error.html", "download.html"}
var fields = [2]string{".HTTPError", ".DownloadTable"}

// page is what a template of a state shows around the content.
func (s state) page(content string) string {
	switch s.name {
	case "condition":
		return "yes " + content
	case "own block":
		return "A" + content + "d"
	case "trimmed":
		return "A" + content + "B"
	}
	return strings.ReplaceAll(s.text, "{{.X}}", content)
}

func place(dir string, file, n int) {
	s := states[n]
	f := dir + "/templates/" + names[file]
	os.Chmod(f, 0o755)
	os.RemoveAll(f)
	text := strings.ReplaceAll(s.text, ".X", fields[file])
	switch s.name {
	case "not there":
	case "broken link":
		os.Symlink(dir+"/nowhere", f)
	case "link":
		h.Put(dir+"/own-"+names[file], text)
		os.Symlink(dir+"/own-"+names[file], f)
	case "directory":
		os.Mkdir(f, 0o755)
	default:
		h.Put(f, text)
		if s.name == "unreadable" {
			os.Chmod(f, 0)
		}
	}
}

// look describes a file.
func look(f string) string {
	fi, err := os.Lstat(f)
	if err != nil {
		return "none"
	}
	l, _ := os.Readlink(f)
	b, _ := os.ReadFile(f)
	return fmt.Sprintf("%v %s %q", fi.Mode(), l, b)
}

var comments = regexp.MustCompile(`(?s)/\*.*?\*/|<!--.*?-->`)

// same compares a page with what it should be; comments (and the space in their place) do not count.
func same(page, want string) bool {
	plain := func(s string) string { return strings.Join(strings.Fields(comments.ReplaceAllString(s, " ")), " ") }
	return page == want || comments.MatchString(want) && plain(page) == plain(want)
}

type world struct{ ctx *h.Ctx }

func get(host, method, target string) (status int, body, bad string) {
	c, err := net.DialTimeout("tcp", host+":"+port, 5*time.Second)
	if err != nil {
		return 0, "", err.Error()
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(15 * time.Second))
	io.WriteString(c, method+" "+target+" HTTP/1.1\r\nHost: a.test\r\nConnection: close\r\n\r\n")
	a := h.ReadAnswer(bufio.NewReader(c), method)
	if a.Err != nil {
		return a.Status, "", a.Err.Error()
	}
	return a.Status, string(a.Body), ""
}

// one is a request and what its page is about.
type one struct {
	method, target string
	status         int
	content        string // "" for the list
}

var asked = map[string][]one{
	"serve":    {{"GET", "/none", 404, "<h3>Error 404 - Page not found</h3>"}, {"POST", "/", 405, "<h3>Error 405 - Method not allowed</h3>"}, {"GET", "/blocked", 403, "<h3>Error 403 - Forbidden</h3>"}},
	"download": {{"GET", "/", 200, ""}, {"GET", "/none", 404, "<h3>Error 404 - Page not found</h3>"}, {"GET", "/list", 200, ""}},
	"proxy":    {{"GET", "/", 502, "<h3>Error 502 - Bad gateway</h3>"}, {"POST", "/", 405, "<h3>Error 405 - Method not allowed</h3>"}},
}

func init() {
	asked["vhost"] = asked["download"]
}

func (w *world) config(kind, dir, host string) string {
	core := h.Core(dir)
	core["FileDir"], core["Address"], core["Port"] = dir, host, port
	fw := h.Generous()
	fw["Firewall"] = h.M{"Enabled": true, "Blacklisting": true, "Rules": h.M{"/blocked": []string{"*"}}}
	site := h.M{"Guard": fw}
	switch kind {
	case "serve":
		site["Serve"] = h.M{"ServeDir": dir + "/www/", "ServeIndex": "index.html", "Methods": h.M{"/": "GET"}}
	case "download", "vhost":
		site["Serve"] = h.M{"ServeDir": dir + "/www/", "ServeIndex": "/list", "Download": h.M{"Enabled": true, "Exts": []string{".bin"}}}
	case "proxy":
		site["Proxy"] = h.M{"Enabled": true, "Methods": []string{"GET"}, "Rules": h.M{"a.test": "http://127.0.0.1:1"}}
	}
	cfg := h.M{"Core": core}
	if kind == "vhost" {
		core["VirtualHosting"], core["VirtualHosts"] = true, h.M{"a.test": h.PutJSON(dir+"/vhost.json", site)}
	} else {
		for k, v := range site {
			cfg[k] = v
		}
	}
	return h.PutJSON(dir+"/main.json", cfg)
}

// ask compares the pages of a running server with its templates.
func ask(p *h.Proc, kind string, text [2]func(string) string, how [2]int) string {
	list := "" // the list as the server shows it, when it can be told
	for _, q := range asked[kind] {
		st, body, err := get(p.Host, q.method, q.target)
		what := fmt.Sprintf("\n%s %s: %d %.1500q %s", q.method, q.target, st, body, err)
		if err != "" {
			return "a page is not complete" + what
		}
		file := 0
		if q.content == "" {
			file = 1
		}
		if file == 1 && how[1] == broken {
			// the failure gets its own page
			if st != 500 {
				return "a list that cannot be composed is not answered with 500" + what
			}
			q.content, file = "<h3>Error 500</h3>", 0
		} else if st != q.status {
			return fmt.Sprintf("not answered with %d", q.status) + what
		}
		switch {
		case file == 0 && how[0] == broken:
			if body != q.content {
				return "an error page that cannot be composed is not replaced by the bare message" + what
			}
		case file == 0:
			if !same(body, text[0](q.content)) {
				return "an error page is not made from its template" + what + fmt.Sprintf("\nwanted %.1500q", text[0](q.content))
			}
		default:
			if list == "" {
				i, j := strings.Index(body, "<h1>Downloads</h1>"), strings.Index(body, "</table><br>\n")
				if i >= 0 && j > i {
					list = body[i : j+len("</table><br>\n")]
				}
				if list != "" && (!strings.Contains(list, "x.bin") || strings.Contains(list, "index.html")) {
					return "the list is not that of the files" + what
				}
			}
			if !same(body, text[1](list)) {
				return "a list is not made from its template" + what + fmt.Sprintf("\nwanted %.1500q", text[1](list))
			}
			if list == "" && strings.Contains(text[1]("X"), "X") && text[1]("X") != text[1]("") {
				return "a list is missing in its page" + what
			}
		}
	}
	return ""
}

func (w *world) run(c Case) h.Outcome {
	dir := w.ctx.Dir("c")
	defer w.ctx.Remove(dir)
	defer func() {
		for _, n := range names {
			os.Chmod(dir+"/templates/"+n, 0o755)
		}
	}()
	h.Put(dir+"/www/index.html", "INDEX")
	h.Put(dir+"/www/x.bin", "BIN")
	if c.States[0] != [2]int{} {
		os.MkdirAll(dir+"/templates", 0o755)
	}
	trans, class := 0, ""
	for i, st := range c.States {
		fail := func(s string) h.Outcome {
			var t []string
			for _, x := range c.States[:i+1] {
				t = append(t, fmt.Sprintf("%q", [2]string{states[x[0]].name, states[x[1]].name}))
			}
			return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\n%s site, templates %s, edit %d", s, c.Kind, strings.Join(t, " then "), c.Edit)}
		}
		for f := range names {
			place(dir, f, st[f])
		}
		var before [2]string
		for f, n := range names {
			before[f] = look(dir + "/templates/" + n)
		}
		var p *h.Proc
		up := false
		for {
			host := h.Loopback()
			p = w.ctx.Start(host, w.config(c.Kind, dir, host))
			if up = p.Ready(port); !up && p.Busy() {
				p.Kill()
				continue
			}
			break
		}
		bad := func() string {
			defer p.Kill()
			if states[st[0]].kind == refuse || states[st[1]].kind == refuse {
				class += " refused"
				switch {
				case up && !p.Ended(3*time.Second):
					return "the server starts without a usable template"
				case !p.Ended(10*time.Second) || p.Code <= 0 || p.Err.String()+p.Out.String() == "":
					return fmt.Sprintf("the server does not refuse to start without a usable template: status %d, %q", p.Code, p.Err.String()+p.Out.String())
				}
				for f, n := range names {
					if !states[st[f]].made && look(dir+"/templates/"+n) != before[f] {
						return "a template was altered: " + n
					}
				}
				return ""
			}
			class += " serves"
			if !up {
				return "the server does not start with usable templates\n" + p.Err.String() + p.Out.String()
			}
			var text [2]func(string) string
			for f, n := range names {
				s := states[st[f]]
				text[f] = s.page
				if !s.made {
					if now := look(dir + "/templates/" + n); now != before[f] {
						return "a template was altered: " + n + " is " + now
					}
					continue
				}
				// the default was created
				b, err := os.ReadFile(dir + "/templates/" + n)
				if err != nil || strings.Count(string(b), "{{"+fields[f]+"}}") != 1 || !strings.Contains(string(b), "<html") || !bytes.HasSuffix(bytes.TrimSpace(b), []byte("</html>")) {
					return fmt.Sprintf("no complete default was created: %s %v %q", n, err, b)
				}
				text[f] = func(c string) string { return strings.ReplaceAll(string(b), "{{"+fields[f]+"}}", c) }
			}
			how := [2]int{states[st[0]].kind, states[st[1]].kind}
			if bad := ask(p, c.Kind, text, how); bad != "" {
				return bad
			}
			// what is written into the directory later does not concern the running server
			if c.Edit >= 0 {
				for f := range names {
					place(dir, f, c.Edit)
				}
				for f, n := range names {
					before[f] = look(dir + "/templates/" + n)
				}
				if bad := ask(p, c.Kind, text, how); bad != "" {
					return "after an edit: " + bad
				}
				for f, n := range names {
					if look(dir+"/templates/"+n) != before[f] {
						return "a running server altered a template: " + n
					}
				}
			}
			trans += 2 * len(asked[c.Kind])
			l, _ := filepath.Glob(dir + "/templates/*")
			sort.Strings(l)
			for _, f := range l {
				if b := filepath.Base(f); b != names[0] && b != names[1] {
					return "a file is left in the directory of the templates: " + b
				}
			}
			return ""
		}()
		trans++
		if bad != "" {
			return fail(bad)
		}
	}
	return h.Outcome{Class: strings.TrimSpace(c.Kind + ":" + class), Sig: fmt.Sprint(c), States: len(c.States), Transitions: trans, Sample: fmt.Sprintf("%+v", c)}
}

func main() {
	h.Main("C26", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is a history of template states and starts; distinct = different histories or sites"
		w := &world{ctx}
		kinds := []string{"serve", "download", "proxy", "vhost"}
		h.Enumerate(ctx, "states", func(y func(Case) bool) {
			for _, k := range kinds {
				for a := range states {
					for b := range states {
						if k != "download" && !ctx.Thorough() && b > 2 && states[b].kind == fine {
							continue
						}
						if !y(Case{k, [][2]int{{a, b}}, -1}) {
							return
						}
					}
				}
			}
		}, w.run)
		h.Enumerate(ctx, "edits", func(y func(Case) bool) {
			for _, k := range []string{"serve", "download"} {
				for a := range states {
					for e := range states {
						if states[a].kind != refuse && !y(Case{k, [][2]int{{a, a}}, e}) {
							return
						}
					}
				}
			}
		}, w.run)
		h.Enumerate(ctx, "restarts", func(y func(Case) bool) {
			for a := range states {
				for b := range states {
					if !y(Case{"download", [][2]int{{a, a}, {b, b}}, -1}) {
						return
					}
					for c := 0; ctx.Thorough() && c < len(states); c++ {
						if !y(Case{"download", [][2]int{{a, c}, {b, a}, {c, b}}, -1}) {
							return
						}
					}
				}
			}
		}, w.run)
		ctx.Bound("%d states of each of the 2 templates, all pairs x 4 kinds of sites (quick: fewer usable lists for 3 kinds); every state edited into every other while the server runs; all histories of 2 (thorough: also 3) starts", len(states))
		ctx.Assume("a template that cannot be read or parsed refuses the start", "html/template removes comments")
	})
}
