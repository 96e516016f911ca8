// C16: download sites. Every small tree over an alphabet of hostile file names, extensions and places is
// listed, every link of the page is followed, and every history of changes to the tree is listed again.
package main

import (
	"bytes"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"golang.org/x/net/html"
	"verif/h"
)

// Node is one thing in the tree.
type Node struct {
	Name string // below the served directory
	Kind string // "" file, dir, link (to a file outside), dirlink, dangling, fifo, locked (no permission), lockeddir
	Text string
	Size int64 // of a file that is a hole
	Mod  int64 // time of modification in nanoseconds of 1970, if not the usual
}

func (n Node) size() int64 {
	switch {
	case n.Size > 0:
		return n.Size
	case n.Kind == "link":
		return int64(len("OUTSIDE"))
	}
	return int64(len(n.Text))
}

func (n Node) mod() time.Time {
	if n.Mod != 0 {
		return time.Unix(0, n.Mod)
	}
	return mtime
}

// Case is one tree and site.
type Case struct {
	Site  int
	Exts  []string
	Nodes []Node
}

// HistCase is a history of changes.
type HistCase struct {
	Site int
	Ops  []int
}

type siteKind struct {
	slash, vhost, viaLink bool
	index                 string
}

var sites = []siteKind{{true, false, false, "/list"}, {false, true, false, "/sub/index.html"}, {false, false, true, "/l i&st"}}

var mtime = time.Date(2020, 1, 2, 3, 4, 5, 0, time.Local)

func ext(name string) string {
	b := name[strings.LastIndex(name, "/")+1:]
	if i := strings.LastIndex(b, "."); i >= 0 {
		return b[i:]
	}
	return ""
}

type server struct {
	dir string
	hd  http.Handler
	k   siteKind

	empty, perRow int // tags of the page without files, and more for each file
}

// servers are kept per site and extensions; only the tree below changes
var servers = map[string]*server{}

func get(ctx *h.Ctx, n int, exts []string) *server {
	key := fmt.Sprintf("%d %q", n, exts)
	if s := servers[key]; s != nil {
		return s
	}
	s := &server{dir: ctx.Dir("d"), k: sites[n]}
	core := h.Core(s.dir)
	core["LogOut"] = "/dev/null"
	sd := s.dir + "/www"
	os.Mkdir(sd, 0o755)
	h.Put(s.dir+"/outside", "OUTSIDE")
	h.Put(s.dir+"/outside.txt", "OUTSIDE")
	if s.k.viaLink {
		os.Symlink("www", s.dir+"/www2")
		sd = s.dir + "/www2"
	}
	if s.k.slash {
		sd += "/"
	}
	cfg := h.M{"Core": core}
	sec := h.M{"Guard": h.Generous(), "Serve": h.M{"ServeDir": sd, "ServeIndex": s.k.index, "Download": h.M{"Enabled": true, "Exts": exts}}}
	if s.k.vhost {
		core["VirtualHosting"], core["VirtualHosts"] = true, h.M{"s.test": h.PutJSON(s.dir+"/v.json", sec)}
	} else {
		for a, b := range sec {
			cfg[a] = b
		}
	}
	s.hd = h.Server(s.dir, cfg).Router
	if len(exts) > 0 {
		w, _ := s.ask("GET", "/")
		_, s.empty = parse(w.body)
		s.put(Node{Name: "plain" + exts[0], Text: "x"})
		w, _ = s.ask("GET", "/")
		_, one := parse(w.body)
		s.perRow = one - s.empty
		s.clear()
	}
	servers[key] = s
	return s
}

func (s *server) clear() {
	es, _ := os.ReadDir(s.dir + "/www")
	for _, e := range es {
		filepath.Walk(s.dir+"/www/"+e.Name(), func(p string, f os.FileInfo, _ error) error {
			if f != nil && f.IsDir() {
				os.Chmod(p, 0o755)
			}
			return nil
		})
		os.RemoveAll(s.dir + "/www/" + e.Name())
	}
}

func (s *server) put(n Node) bool {
	p := s.dir + "/www/" + n.Name
	os.MkdirAll(filepath.Dir(p), 0o755)
	var err error
	switch n.Kind {
	case "", "locked":
		if err = os.WriteFile(p, []byte(n.Text), 0o644); err == nil {
			if n.Size > 0 {
				err = os.Truncate(p, n.Size)
			}
			os.Chtimes(p, n.mod(), n.mod())
		}
		if n.Kind == "locked" {
			os.Chmod(p, 0)
		}
	case "dir":
		err = os.MkdirAll(p, 0o755)
	case "lockeddir":
		if err = os.MkdirAll(p, 0o755); err == nil {
			h.Put(p+"/in.txt", "IN")
			os.Chmod(p, 0)
		}
	case "link":
		err = os.Symlink(s.dir+"/outside", p)
	case "dirlink":
		err = os.Symlink(s.dir, p)
	case "dangling":
		err = os.Symlink(s.dir+"/nothing", p)
	case "fifo":
		err = syscall.Mkfifo(p, 0o644)
	}
	return err == nil
}

type row struct {
	href, name string
	text       string // everything of the row behind the link
}

// parse reads the page as a browser does.
func parse(b []byte) (rows []row, tags int) {
	z := html.NewTokenizer(bytes.NewReader(b))
	var cur *row
	in := false
	for {
		t := z.Next()
		if t == html.ErrorToken {
			return rows, tags
		}
		tk := z.Token()
		if t != html.TextToken {
			tags++
		}
		switch {
		case t == html.StartTagToken && tk.Data == "a":
			rows = append(rows, row{})
			cur, in = &rows[len(rows)-1], true
			for _, a := range tk.Attr {
				if a.Key == "href" {
					cur.href = a.Val
				} else {
					tags += 1000
				}
			}
		case t == html.EndTagToken && tk.Data == "a":
			in = false
		case t == html.TextToken && in:
			cur.name += tk.Data
		case t == html.TextToken && cur != nil:
			cur.text += " " + tk.Data
		case t == html.EndTagToken && tk.Data == "table":
			cur = nil
		case t != html.TextToken && cur != nil:
			cur.text += "\x00" + tk.Data
		}
	}
}

func (s *server) ask(method, target string, more ...string) (w *resp, err error) {
	r, err := h.ParseRequest(method+" "+target+" HTTP/1.1\r\nHost: s.test:8080\r\n"+strings.Join(append(more, ""), "\r\n")+"\r\n", "10.0.0.1:1")
	if err != nil {
		return nil, err
	}
	rec, pan := h.Serve(s.hd, r)
	return &resp{rec.Code, rec.Result().Header, rec.Body.Bytes(), pan}, nil
}

type resp struct {
	code int
	hd   http.Header
	body []byte
	pan  string
}

// look compares the page with the tree and follows every link.
func (s *server) look(exts []string, tree map[string]Node, user bool, idx string) (bad string, n int) {
	w, err := s.ask("GET", idx)
	if err != nil {
		return "harness: " + err.Error(), 0
	}
	if w.pan != "" {
		return "the list of downloads panics: " + w.pan, 0
	}
	if w.code != 200 || !strings.HasPrefix(w.hd.Get("Content-Type"), "text/html") {
		return fmt.Sprintf("the list of downloads is not shown\n%d %v", w.code, w.hd), 0
	}
	want := map[string]Node{}
	for p, nd := range tree {
		if nd.Kind == "" || nd.Kind == "link" || nd.Kind == "locked" {
			for _, e := range exts {
				if ext(p) == e {
					want["/"+p] = nd
				}
			}
		}
	}
	rows, tags := parse(w.body)
	got := map[string]int{}
	base, _ := url.Parse("http://s.test" + (&url.URL{Path: s.k.index}).EscapedPath())
	if len(exts) > 0 && tags != s.empty+len(rows)*s.perRow {
		return fmt.Sprintf("a file name is shown as markup\n%d tags for %d rows, expected %d and %d for each row", tags, len(rows), s.empty, s.perRow), 0
	}
	for _, r := range rows {
		u, err := base.Parse(r.href)
		if err != nil || u.Host != "s.test" || u.Scheme != "http" {
			return fmt.Sprintf("a link of the list is broken\nlink %q: %v", r.href, err), 0
		}
		nd, in := want[u.Path]
		if !in || u.RawQuery != "" || u.Fragment != "" {
			return fmt.Sprintf("the list has a link that is no listed file\nlink %q", r.href), 0
		}
		if got[u.Path]++; got[u.Path] > 1 {
			return fmt.Sprintf("a file is listed twice\nlink %q", r.href), 0
		}
		if nm := strings.ToValidUTF8(strings.NewReplacer("\r\n", "\n", "\r", "\n").Replace(strings.TrimPrefix(u.Path, "/")), "\uFFFD"); strings.ToValidUTF8(r.name, "\uFFFD") != nm && strings.TrimPrefix(r.name, "/") != nm {
			return fmt.Sprintf("a file is listed under another name\nlink %q name %q", r.href, r.name), 0
		}
		parts := strings.Split(r.text, "\x00")
		txt := ""
		for _, p := range parts {
			f := strings.SplitN(p, " ", 2)
			if len(f) > 1 {
				txt += " " + f[1]
			}
		}
		size := nd.size()
		if f := strings.Fields(txt); len(f) == 0 || f[0] != strconv.FormatInt(size, 10) || nd.Kind == "" && !strings.Contains(txt, nd.mod().Format("2006-01-02 15:04:05")) {
			return fmt.Sprintf("size or time of a file is listed wrong\nlink %q: %q, size %d", r.href, txt, size), 0
		}
	}
	if len(got) != len(want) {
		var miss []string
		for p := range want {
			if got[p] == 0 {
				miss = append(miss, p)
			}
		}
		sort.Strings(miss)
		return fmt.Sprintf("a file is missing in the list\n%q", miss), 0
	}
	n = 1
	for i, r := range rows {
		if i >= 12 && i < len(rows)-12 {
			continue // of long lists the ends only: the server reads the whole tree for each file
		}
		u, _ := base.Parse(r.href)
		nd := want[u.Path]
		if nd.Size > 0 { // its last bytes
			w, err := s.ask("GET", u.RequestURI(), "Range: bytes=-7")
			if rg := fmt.Sprintf("bytes %d-%d/%d", nd.Size-7, nd.Size-1, nd.Size); err != nil || w.code != 206 || string(w.body) != strings.Repeat("\x00", 7) || w.hd.Get("Content-Range") != rg {
				return fmt.Sprintf("a link of the list does not deliver its file\nlink %q, last 7 of %d bytes: %v %+v", r.href, nd.Size, err, w), 0
			}
			n++
			continue
		}
		w, err := s.ask("GET", u.RequestURI())
		n++
		if err != nil {
			return fmt.Sprintf("a link of the list is not a valid request\nlink %q: %v", r.href, err), 0
		}
		if w.pan != "" {
			return fmt.Sprintf("following a link panics\nlink %q: %s", r.href, w.pan), 0
		}
		text := nd.Text
		if nd.Kind == "link" {
			text = "OUTSIDE"
		}
		if nd.Kind == "locked" && user {
			if w.code != 403 || text != "" && strings.Contains(string(w.body), text) {
				return fmt.Sprintf("a file that cannot be read is not answered 403\nlink %q: %d", r.href, w.code), 0
			}
			continue
		}
		if w.code != 200 || string(w.body) != text {
			return fmt.Sprintf("a link of the list does not deliver its file\nlink %q: %d %q, expected %q", r.href, w.code, w.body, text), 0
		}
		if d := w.hd.Get("Content-Disposition"); !strings.HasPrefix(strings.ToLower(d), "attach") {
			return fmt.Sprintf("a download is not marked as one\nlink %q: Content-Disposition %q", r.href, d), 0
		}
	}
	// everything else of the tree
	for p, nd := range tree {
		if _, in := want["/"+p]; in || nd.Kind == "lockeddir" || "/"+p == s.k.index {
			continue
		}
		w, err := s.ask("GET", (&url.URL{Path: "/" + p}).EscapedPath())
		n++
		if err != nil {
			continue
		}
		if w.pan != "" {
			return fmt.Sprintf("asking for a file panics\n%q: %s", p, w.pan), 0
		}
		ok := w.code == 404
		if nd.Kind == "" || nd.Kind == "link" {
			// files of other extensions are not listed; asked by name they are delivered exactly or not at all
			text := nd.Text
			if nd.Kind == "link" {
				text = "OUTSIDE"
			}
			ok = ok || w.code == 200 && string(w.body) == text
		}
		if nd.Kind == "locked" {
			ok = ok || w.code == 403 || !user
		}
		if !ok {
			return fmt.Sprintf("something that is no file is delivered\n%q (%s): %d %q", p, nd.Kind, w.code, w.body), 0
		}
	}
	return "", n
}

func run(ctx *h.Ctx) func(Case) h.Outcome {
	return func(c Case) h.Outcome {
		s := get(ctx, c.Site, c.Exts)
		s.clear()
		tree := map[string]Node{}
		for _, n := range c.Nodes {
			if !s.put(n) {
				return h.Outcome{Class: "not a tree"}
			}
			tree[n.Name] = n
		}
		bad, n, user := "", 0, os.Geteuid() != 0
		do := func() {
			for _, idx := range []string{"/", (&url.URL{Path: s.k.index}).EscapedPath()} {
				k := 0
				if bad, k = s.look(c.Exts, tree, user, idx); bad != "" {
					return
				}
				n += k
			}
			if w, _ := s.ask("POST", "/"); w == nil || w.code != 405 {
				bad = "a method other than GET is answered"
			}
		}
		do()
		if bad != "" {
			return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\ntree %+v, extensions %q, site %+v", bad, c.Nodes, c.Exts, s.k)}
		}
		return h.Outcome{Class: fmt.Sprintf("%d things", len(c.Nodes)), Sig: fmt.Sprint(c), States: 1, Transitions: n, Sample: fmt.Sprintf("%.500s %q: %d requests", fmt.Sprintf("%+v", c.Nodes), c.Exts, n)}
	}
}

var ops = []struct {
	what string
	n    Node
}{
	{"write", Node{Name: "a.txt", Kind: "", Text: "first"}}, {"write", Node{Name: "a.txt", Kind: "", Text: "the second"}}, {"write", Node{Name: "s b/b.pdf", Kind: "", Text: "B"}}, {"write", Node{Name: "s b/a.txt", Kind: "", Text: ""}},
	{"remove", Node{Name: "a.txt"}}, {"remove", Node{Name: "s b"}}, {"remove", Node{Name: "s b/b.pdf"}}, {"write", Node{Name: "a.txt", Kind: "dir", Text: ""}}, {"write", Node{Name: "a.txt", Kind: "link", Text: ""}}, {"write", Node{Name: "a.txt/c.txt", Kind: "", Text: "C"}},
}

func history(ctx *h.Ctx) func(HistCase) h.Outcome {
	exts := []string{".txt", ".pdf"}
	return func(c HistCase) h.Outcome {
		s := get(ctx, c.Site, exts)
		s.clear()
		tree := map[string]Node{}
		n := 0
		for i, o := range c.Ops {
			op := ops[o]
			switch op.what {
			case "write":
				p := s.dir + "/www/" + op.n.Name
				if fi, err := os.Lstat(p); err == nil && fi.Mode()&os.ModeSymlink != 0 {
					os.Remove(p) // never write through a link
					delete(tree, op.n.Name)
				}
				if st, err := os.Lstat(filepath.Dir(p)); err == nil && !st.IsDir() {
					return h.Outcome{Class: "no such history"}
				}
				if !s.put(op.n) {
					return h.Outcome{Class: "no such history"}
				}
				tree[op.n.Name] = op.n
			case "remove":
				if _, err := os.Lstat(s.dir + "/www/" + op.n.Name); err != nil {
					return h.Outcome{Class: "no such history"}
				}
				os.RemoveAll(s.dir + "/www/" + op.n.Name)
				for p := range tree {
					if p == op.n.Name || strings.HasPrefix(p, op.n.Name+"/") {
						delete(tree, p)
					}
				}
			}
			bad, k := s.look(exts, tree, false, "/")
			n += k
			if bad != "" {
				return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\nafter step %d of %v", bad, i+1, c.Ops)}
			}
		}
		return h.Outcome{Class: fmt.Sprintf("%d changes", len(c.Ops)), Sig: fmt.Sprint(c), States: len(c.Ops), Transitions: n}
	}
}

func main() {
	h.Main("C16", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is a directory tree (or a history of changes to it), the configured extensions and a site; its list is read and every link followed; distinct = different trees, extensions and sites"
		base := []string{"a.txt", "b.pdf", "noext", ".hidden", ".txt", "c.TXT", "d.txt.pdf", "e.pdf.txt", "sp ace.txt", "pl+us.txt", "per%41cent.txt", "p%zz.txt", "h#ash.txt", "q?m=1.txt", "a&amp;.txt", "<b>x.txt", "\"q\".txt", "'q'.txt", "x\" onclick=\"y.txt",
			"</a><script>.txt", "back\\slash.txt", "se;mi.txt", "co:lon.txt", "javascript:x.txt", "ünï.txt", "日本.txt", "\xff\xfe.txt", "new\nline.txt", "tab\t.txt", "..x.txt", "...txt", "{{.}}.txt", "index.html", "index.txt", "-.txt", "*.txt", "http:.txt", "b.pdf.", "%2e%2e%2fa.txt", "a.txt ", "~.txt", "$`|.txt", "@.txt", "=,.txt", "\x01.txt", "[x].txt", "\u2028.txt", "&lt;.txt", "&.txt"}
		var names []string
		for _, d := range []string{"", "sub/", "sub/de ep/", "we<i>rd&.txt/"} {
			for _, b := range base {
				names = append(names, d+b)
			}
		}
		kinds := []Node{}
		for _, k := range []string{"dir", "link", "dirlink", "dangling", "fifo", "locked", "lockeddir"} {
			for _, n := range []string{"k.txt", "sub/k.txt", "k.pdf", "we<i>rd&.txt/k.txt", "<k>.txt", "k"} {
				kinds = append(kinds, Node{Name: n, Kind: k, Text: "KIND"})
			}
		}
		extsets := [][]string{{".txt"}, {".txt", ".pdf"}, {".pdf", "", ".txt"}, {}, {"."}, {".hidden", ".TXT"}}
		r := run(ctx)
		h.Enumerate(ctx, "one thing", func(y func(Case) bool) {
			for si := range sites {
				for _, e := range extsets {
					if !y(Case{si, e, nil}) {
						return
					}
					for _, n := range names {
						for _, t := range []string{"", "content of " + n} {
							if !y(Case{si, e, []Node{{Name: n, Text: t}}}) {
								return
							}
						}
					}
					for _, k := range kinds {
						if !y(Case{si, e, []Node{k}}) {
							return
						}
					}
				}
			}
		}, r)
		h.Enumerate(ctx, "places, sizes and times", func(y func(Case) bool) {
			var one []Node
			for _, d := range []string{".hid/", ".git/", "_x/", "node_modules/", "a.txt/", "..x/", "~/", "-/", "CVS/", "lost+found/", "x.pdf/.y/", "Thumbs.db/", "tmp/", "#x/", strings.Repeat("d/", 40), strings.Repeat("n", 200) + "/", "sub/.hid/sub/"} {
				for _, n := range []string{"a.txt", ".h.txt", "_.txt", "~a.txt", "#a.txt#.txt", "a.txt~.txt", "a.bak.txt", "a.tmp.txt", strings.Repeat("l", 240) + ".txt"} {
					one = append(one, Node{Name: d + n, Text: "content of " + n})
				}
			}
			for _, z := range []int64{1023, 1024, 1<<20 - 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 9, 1 << 40} {
				one = append(one, Node{Name: "hole.txt", Size: z})
			}
			for _, m := range []int64{1, -1, -int64(time.Hour) * 24 * 365 * 30, 1e18 + 123456789, 1582934400e9, 1711846800e9, 1729990800e9, 4e18, 2147483648e9, 999999999} {
				one = append(one, Node{Name: "old.txt", Text: "OLD", Mod: m})
			}
			for si := range sites {
				for _, e := range extsets[:3] {
					for _, n := range one {
						if !y(Case{si, e, []Node{n}}) {
							return
						}
					}
					for _, n := range []int{17, 33, 65, 101, 129, 257, 1025} {
						for _, d := range []bool{false, true} {
							c := Case{Site: si, Exts: e}
							for i := 0; i < n; i++ {
								x := []string{".txt", ".txt", ".txt", ".pdf"}[i%4]
								nd := Node{Name: fmt.Sprintf("f%d%s", i, x), Text: fmt.Sprint(i)}
								if d {
									nd.Name = fmt.Sprintf("d%d/f%s", i, x)
								}
								c.Nodes = append(c.Nodes, nd)
							}
							if !y(c) {
								return
							}
						}
					}
				}
			}
		}, r)
		h.Enumerate(ctx, "no directory", func(y func(Case) bool) {
			for si := range sites {
				for _, e := range extsets {
					for _, k := range []string{"", "file", "locked"} {
						if !y(Case{si, e, []Node{{Kind: k}}}) {
							return
						}
					}
				}
			}
		}, func(c Case) h.Outcome {
			s := get(ctx, c.Site, c.Exts)
			s.clear()
			defer os.Mkdir(s.dir+"/www", 0o755)
			www := s.dir + "/www"
			switch c.Nodes[0].Kind {
			case "":
				os.Remove(www)
			case "file":
				os.Remove(www)
				h.Put(www, "FILE")
				defer os.Remove(www)
			case "locked":
				os.Chmod(www, 0)
				defer os.Chmod(www, 0o755)
			}
			for _, t := range []string{"/", "/a.txt", "/www", (&url.URL{Path: s.k.index}).EscapedPath()} {
				w, err := s.ask("GET", t)
				if err != nil {
					continue
				}
				if rows, _ := parse(w.body); w.pan != "" || len(rows) > 0 || strings.Contains(string(w.body), "FILE") {
					return h.Outcome{Class: "differs", Bad: fmt.Sprintf("a missing or unreadable directory brings the request down\n%+v %s: %d %s", c, t, w.code, w.pan)}
				}
			}
			return h.Outcome{Class: "answered", Sig: fmt.Sprint(c)}
		})
		h.Enumerate(ctx, "two things", func(y func(Case) bool) {
			var all []Node
			for _, n := range names {
				all = append(all, Node{Name: n, Text: "content of " + n})
			}
			all = append(all, kinds...)
			sets := extsets[1:2]
			ss := []int{1}
			if ctx.Thorough() {
				sets, ss = extsets[:3], []int{0, 1, 2}
			}
			for _, si := range ss {
				for _, e := range sets {
					for i, a := range all {
						for _, b := range all[i+1:] {
							if a.Name != b.Name && !y(Case{si, e, []Node{a, b}}) {
								return
							}
						}
					}
				}
			}
		}, r)
		h.Enumerate(ctx, "three things", func(y func(Case) bool) {
			var all []Node
			for _, n := range []string{"a.txt", "b.pdf", "sub/a.txt", "sub/<b>.txt", "sub/de ep/c.txt", "sub/de ep/noext", "z#.txt", "sub/sub/sub/sub/x.txt", "index.txt"} {
				all = append(all, Node{Name: n, Text: "content of " + n})
			}
			for _, k := range kinds {
				if k.Name == "k.txt" || k.Name == "sub/k.txt" || k.Name == "we<i>rd&.txt/k.txt" {
					all = append(all, k)
				}
			}
			ss := []int{2}
			if ctx.Thorough() {
				ss = []int{0, 1, 2}
			}
			for _, si := range ss {
				for i, a := range all {
					for j, b := range all[i+1:] {
						for _, c := range all[i+j+2:] {
							if a.Name != b.Name && b.Name != c.Name && a.Name != c.Name && !y(Case{si, extsets[1], []Node{a, b, c}}) {
								return
							}
						}
					}
				}
			}
		}, r)
		h.Enumerate(ctx, "histories", func(y func(HistCase) bool) {
			depth := 4
			if ctx.Thorough() {
				depth = 5
			}
			var rec func(x []int) bool
			rec = func(x []int) bool {
				if len(x) > 0 && len(x) == depth {
					return y(HistCase{len(x) % 2, x})
				}
				for o := range ops {
					if !rec(append(x[:len(x):len(x)], o)) {
						return false
					}
				}
				return true
			}
			rec(nil)
		}, history(ctx))
		ctx.Bound("%d names in 4 directories alone and in all pairs, 7 other kinds of directory entries, 6 extension lists, 3 sites; triples over 30; histories of %d changes", len(base), len(ops))
		ctx.Assume("the tree does not change during a request", "HTML is read by the x/net/html tokenizer as a browser would")
	})
}
