// C15: file sites deliver the files below their own directory and nothing else. Every request path of up to
// three segments from an alphabet of names, dot segments and encodings is asked of every kind of site; the
// tree around the served directories is full of secrets.
package main

import (
	"fmt"
	"io"
	"mime"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/h"
	"verif/ref"
)

// PathCase is one request.
type PathCase struct {
	Site   int
	Method string
	Target string
}

// RangeCase asks for parts of a file.
type RangeCase struct {
	Kind   string
	File   string
	Method string
	Hdr    []string
}

// FileCase asks for one file of a site with files of every media type and of many sizes.
type FileCase struct {
	Kind   string // serve, download, vhost
	Name   string
	Method string
}

// HistCase is a history of changes to a file, asked for after each of them.
type HistCase struct {
	Kind string
	Ops  []int
}

// the served tree: path -> content; "" marks a directory
var tree = map[string]string{
	"/index.html": "ROOT INDEX", "/a.txt": "A-FILE", "/empty.txt": "\x00", "/noext": "NOEXT", "/.hidden": "HIDDEN", "/..x": "DOTDOTX", "/...": "DOTS",
	"/sp ace.txt": "SPACE", "/%41.txt": "PERCENT", "/x#y.txt": "HASH", "/q?.txt": "QUESTION", "/b\\c.txt": "BACKSLASH", "/a;b.txt": "SEMI", "/é.txt": "ACCENT",
	"/sub": "", "/sub/index.html": "SUB INDEX", "/sub/b.css": "B-FILE", "/sub/deep": "", "/sub/deep/c.pdf": "C-FILE", "/sub/a.txt": "SUB A",
	"/bare": "", "/bare/x.js": "X-FILE", "/d.html": "", "/Up.TXT": "UPPER", "/UP": "", "/UP/a.txt": "UP A", "/d.html/y.json": "Y-FILE", "/bare/secret.txt": "NOT SO SECRET", "/%2e%2e": "", "/%2e%2e/secret.txt": "LITERAL",
}

// every outside file says SECRET and where it is
var secrets = []string{"secret.txt", "www-x/secret.txt", "wwwsecret.txt", "ww", "main2.json", "other/secret.txt", "other/index.html", "index.html", "a.txt", "sub/b.css"}

type siteKind struct {
	kind  string // serve, download
	slash bool   // ServeDir ends in a slash
	vhost bool
	index string
}

var sites = []siteKind{{"serve", false, false, "index.html"}, {"serve", true, true, "index.html"}, {"download", true, false, "/list"}, {"download", false, true, "/index.html"}, {"serve", true, false, "a.txt"}}

var handlers = map[int]http.Handler{}
var mtime = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

func site(ctx *h.Ctx, n int) http.Handler {
	if hd := handlers[n]; hd != nil {
		return hd
	}
	k := sites[n]
	dir := ctx.Dir("site")
	for _, s := range secrets {
		h.Put(filepath.Join(dir, s), "SECRET "+s)
	}
	for p, c := range tree {
		if c == "" {
			os.MkdirAll(dir+"/www"+p, 0o755)
		}
	}
	for p, c := range tree {
		if c != "" {
			if c == "\x00" {
				c = ""
			}
			f := dir + "/www" + p
			if err := os.WriteFile(f, []byte(c), 0o644); err != nil {
				panic(err)
			}
			os.Chtimes(f, mtime, mtime)
		}
	}
	core := h.Core(dir)
	core["LogOut"] = "/dev/null"
	sd := dir + "/www"
	if k.slash {
		sd += "/"
	}
	sec := h.M{"Guard": h.Generous()}
	if k.kind == "serve" {
		sec["Serve"] = h.M{"ServeDir": sd, "ServeIndex": k.index, "Methods": h.M{"/": "GET;HEAD;POST", "/sub/deep/": "GET;HEAD;POST", "/a.txt": "GET;HEAD;POST"},
			"MIMETypes": h.M{"RequestTypes": h.M{"/": "*", "/sub/deep/": "*", "/a.txt": "*"}, "ResponseTypes": h.M{"/noext": "text/x-none"}}}
	} else {
		sec["Serve"] = h.M{"ServeDir": sd, "ServeIndex": k.index, "Download": h.M{"Enabled": true, "Exts": []string{".txt"}}, "MIMETypes": h.M{"ResponseTypes": h.M{"/noext": "text/x-none"}}}
	}
	cfg := h.M{"Core": core}
	if k.vhost {
		other := h.M{"Guard": h.Generous(), "Serve": h.M{"ServeDir": dir + "/other", "ServeIndex": "index.html", "Methods": h.M{"/": "GET;HEAD;POST"}}}
		core["VirtualHosting"], core["VirtualHosts"] = true, h.M{"s.test": h.PutJSON(dir+"/v.json", sec), "o.test": h.PutJSON(dir+"/o.json", other)}
	} else {
		for a, b := range sec {
			cfg[a] = b
		}
	}
	handlers[n] = h.Server(dir, cfg).Router
	return handlers[n]
}

var types = map[string]string{".txt": "text/plain", ".html": "text/html", ".css": "text/css", ".js": "text/javascript", ".pdf": "application/pdf", ".json": "text/json"}

func contentType(p string) string {
	if p == "/noext" {
		return "text/x-none"
	}
	if t := types[filepath.Ext(p)]; t != "" {
		return t
	}
	return "application/octet-stream"
}

// want is what a canonical path means: a file of the tree, "dir", "list" or "none".
func want(k siteKind, p string) (string, string) {
	if k.kind == "download" {
		if p == "/" || p == k.index {
			return "list", ""
		}
		if c := tree[p]; c != "" {
			return "file", p
		}
		return "none", ""
	}
	if strings.HasSuffix(p, "/") {
		p += k.index
		if _, in := tree[p]; !in {
			return "none", ""
		}
	}
	c, in := tree[p]
	switch {
	case !in:
		return "none", ""
	case c == "":
		return "dir", p
	}
	return "file", p
}

func path(ctx *h.Ctx) func(PathCase) h.Outcome {
	return func(c PathCase) h.Outcome {
		hd := site(ctx, c.Site)
		k := sites[c.Site]
		r, err := h.ParseRequest(c.Method+" "+c.Target+" HTTP/1.1\r\nHost: s.test\r\n\r\n", "10.0.0.1:1")
		if err != nil {
			return h.Outcome{Class: "not a request"}
		}
		raw := c.Target
		if i := strings.Index(raw, "://"); i > 0 {
			raw = raw[i+3:]
			if j := strings.Index(raw, "/"); j >= 0 {
				raw = raw[j:]
			} else {
				raw = ""
			}
		}
		clear := strings.HasPrefix(raw, "/") || raw == ""
		if i := strings.Index(raw, "?"); i >= 0 {
			raw = raw[:i]
		}
		dec, err := url.PathUnescape(raw)
		if err != nil {
			clear = false
		}
		p := ref.Clean(dec)
		w, pan := h.Serve(hd, r)
		body := w.Body.String()
		show := func(s string) h.Outcome {
			if len(body) > 300 {
				body = body[:300]
			}
			return h.Outcome{Class: "differs", Key: s, Bad: fmt.Sprintf("%s\n%s %s of site %+v (path %q): %d %v %q", s, c.Method, c.Target, k, p, w.Code, w.Result().Header, body)}
		}
		if pan != "" {
			return show("the request panics: " + pan)
		}
		if strings.Contains(body, "SECRET ") {
			return show("a file outside the served directory is delivered")
		}
		if !clear {
			return h.Outcome{Class: "malformed", Sig: fmt.Sprint(c)}
		}
		kind, f := want(k, p)
		o := h.Outcome{Class: kind, Sig: fmt.Sprint(c.Site, c.Method, p, c.Target), Sample: fmt.Sprintf("%s %s -> %d %s", c.Method, c.Target, w.Code, kind)}
		if k.kind == "download" && c.Method != "GET" {
			if w.Code != 405 {
				return show("a method other than GET is answered by the download site")
			}
			o.Class = "method"
			return o
		}
		switch kind {
		case "none":
			if w.Code != 404 {
				return show("a path that names no file is not answered 404")
			}
		case "list":
			if w.Code != 200 || !strings.Contains(body, "Downloads") {
				return show("the list of downloads is not shown")
			}
		case "dir":
			if loc := strings.SplitN(w.Header().Get("Location"), "?", 2)[0]; w.Code != 301 || loc != filepath.Base(f)+"/" && loc != (&url.URL{Path: f + "/"}).String() && loc != "./"+(&url.URL{Path: filepath.Base(f)}).EscapedPath()+"/" && loc != (&url.URL{Path: filepath.Base(f)}).EscapedPath()+"/" {
				if w.Code != 404 {
					return show("a directory without its slash is neither redirected to itself with a slash nor 404")
				}
			}
		case "file":
			if w.Code == 301 && k.kind == "serve" && k.index == "index.html" && strings.SplitN(w.Header().Get("Location"), "?", 2)[0] == "./" && strings.HasSuffix(p, "/index.html") {
				o.Class = "index by name" // net/http redirects to the directory
				break
			}
			wb := tree[f]
			if wb == "\x00" {
				wb = ""
			}
			n := len(wb)
			if c.Method == "HEAD" {
				wb = ""
			}
			if w.Code != 200 || body != wb {
				return show("a file is not delivered as it is")
			}
			if cl := w.Header().Get("Content-Length"); cl != strconv.Itoa(n) {
				return show("the length announced for a file is wrong")
			}
			if ct := w.Header().Get("Content-Type"); ct != contentType(f) {
				return show("the media type of a file is wrong: " + ct + " for " + contentType(f))
			}
		}
		return o
	}
}

// the documented media types
var media = map[string]string{"aac": "audio/aac", "avi": "video/x-msvideo", "bmp": "image/bmp", "css": "text/css", "csv": "text/csv", "gif": "image/gif", "html": "text/html", "htm": "text/html",
	"jpeg": "image/jpeg", "jpg": "image/jpeg", "js": "text/javascript", "json": "text/json", "mpeg": "video/mpeg", "png": "image/png", "pdf": "application/pdf", "svg": "image/svg+xml", "txt": "text/plain",
	"xhtml": "application/xhtml-xml", "xml": "application/xml", "zip": "application/zip"}

var custom = map[string]map[string]string{"serve": {"/d/typed": "x/serve", "/typed.zz": "x/zz"}, "download": {"/d/typed": "x/download"}, "vhost": {"/d/typed": "x/vhost", "/d/typed.qq": "x/qq"}}

var sizes = []int{0, 1, 2, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 1<<20 - 1, 1 << 20, 1<<20 + 1, 5<<20 + 7}

// sizes of files that are made when they are asked for
var big = []int{16 << 20, 16<<20 + 1, 24<<20 + 3, 32<<20 + 1, 65<<20 + 5}

// files is the tree of the groups "files" and "histories": name -> type and size
func files(kind string) (names []string, typ map[string]string, size map[string]int) {
	typ, size = map[string]string{}, map[string]int{}
	add := func(n, t string, k int) {
		if c := custom[kind][n]; c != "" {
			t = c
		}
		names, typ[n], size[n] = append(names, n), t, k
	}
	const other = "application/octet-stream"
	for e, t := range media {
		for i, n := range []string{"/f." + e, "/d/g.tar." + e, "/." + e, "/d." + e + "/x." + e} {
			add(n, t, 100+i)
		}
		for i, n := range []string{"/f." + strings.ToUpper(e), "/f." + e + ".bak", "/f." + e + "x", "/f" + e, "/d." + e + "/x"} {
			if _, in := media[strings.TrimPrefix(filepath.Ext(n), ".")]; !in {
				add(n, other, 200+i)
			}
		}
	}
	for _, n := range []string{"/d/typed", "/typed", "/typed.zz", "/d/typed.zz", "/d/typed.qq", "/d/typed.", "/typed.qq"} {
		add(n, other, 10)
	}
	for _, k := range big {
		add(fmt.Sprintf("/big%d.txt", k), "text/plain", k)
	}
	odd := []string{"/trail.txt.", "/trail.txt..", "/trail.txt ", "/trail ", " /x.txt", "/ lead.txt", "/a..b", "/..a/x.txt", "/a../x.txt", "/.../x.txt", "/.git/config", "/.well-known/acme-challenge/tok", "/.env", "/~u/x.txt", "/x.txt~", "/#x#", "/con.txt",
		"/caf\u00e9.txt", "/cafe\u0301.txt", "/\u202etxt.x", "/\ufeff.txt", "/a\tb.txt", "/a\nb.txt", "/a\\b", "/\xff\xfe", "/%2e%2e/x.txt", "/%25", "/a+b.txt", "/a&b=c;d.txt", "/*", "/<x>.txt", "/'\".txt", "/{{.}}.txt",
		"/" + strings.Repeat("n", 255), "/" + strings.Repeat("m", 251) + ".txt", strings.Repeat("/d", 300) + "/x.txt", strings.Repeat("/"+strings.Repeat("e", 250), 14) + "/x.txt"}
	for i, n := range odd {
		n = "/" + strings.TrimPrefix(n, "/")
		t := other
		if strings.HasSuffix(n, ".txt") {
			t = "text/plain"
		}
		add(n, t, 300+i)
	}
	for _, k := range sizes {
		add(fmt.Sprintf("/size%d.txt", k), "text/plain", k)
		add(fmt.Sprintf("/d/size%d", k), other, k)
	}
	sort.Strings(names)
	return
}

func content(name string, n int) string {
	x := name + "|"
	for i := 0; len(x) < n; i++ {
		x += fmt.Sprintf("%s-%d-%x;", name, i, i*i) + x
	}
	return x[:n]
}

type fileSite struct {
	hd   http.Handler
	dir  string
	typ  map[string]string
	size map[string]int
}

var fileSites = map[string]*fileSite{}

func newFileSite(ctx *h.Ctx, kind string) *fileSite {
	dir := ctx.Dir("files")
	names, typ, size := files(kind)
	for _, n := range names {
		if !strings.HasPrefix(n, "/big") {
			h.Put(dir+"/www"+n, content(n, size[n]))
		}
	}
	core := h.Core(dir)
	core["LogOut"] = "/dev/null"
	serve := func(kind, www string) h.M {
		rt := h.M{}
		for a, b := range custom[kind] {
			rt[a] = b
		}
		sv := h.M{"ServeDir": www, "ServeIndex": "/list", "MIMETypes": h.M{"ResponseTypes": rt}}
		if kind == "download" {
			sv["Download"] = h.M{"Enabled": true, "Exts": []string{".txt"}}
		} else {
			sv["ServeIndex"], sv["Methods"] = "f.html", h.M{"/": "GET;HEAD"}
		}
		return h.M{"Guard": h.Generous(), "Serve": sv}
	}
	cfg := h.M{"Core": core}
	if kind == "vhost" {
		core["VirtualHosting"] = true
		core["VirtualHosts"] = h.M{"s.test": h.PutJSON(dir+"/v.json", serve("vhost", dir+"/www")), "o.test": h.PutJSON(dir+"/o.json", serve("serve", dir+"/www")), "p.test": h.PutJSON(dir+"/p.json", serve("download", dir+"/www"))}
	} else {
		for a, b := range serve(kind, dir+"/www") {
			cfg[a] = b
		}
	}
	return &fileSite{h.Server(dir, cfg).Router, dir, typ, size}
}

func file(ctx *h.Ctx) func(FileCase) h.Outcome {
	return func(c FileCase) h.Outcome {
		if fileSites[c.Kind] == nil {
			fileSites[c.Kind] = newFileSite(ctx, c.Kind)
		}
		s := fileSites[c.Kind]
		if strings.HasPrefix(c.Name, "/big") {
			h.Put(s.dir+"/www"+c.Name, content(c.Name, s.size[c.Name]))
			defer os.Remove(s.dir + "/www" + c.Name)
		}
		w, pan := h.Serve(s.hd, h.Req(c.Method, (&url.URL{Path: c.Name}).EscapedPath(), "s.test", "10.0.0.1:1"))
		n := s.size[c.Name]
		want := content(c.Name, n)
		if c.Method == "HEAD" {
			want = ""
		}
		bad := ""
		switch {
		case pan != "":
			bad = "the request panics: " + pan
		case w.Code != 200 || w.Body.String() != want:
			bad = "a file is not delivered as it is"
		case w.Header().Get("Content-Length") != strconv.Itoa(n):
			bad = "the length announced for a file is wrong"
		case w.Header().Get("Content-Type") != s.typ[c.Name]:
			bad = "the media type of a file is wrong: not " + s.typ[c.Name]
		}
		if bad != "" {
			return h.Outcome{Class: "differs", Key: bad, Bad: fmt.Sprintf("%s\n%+v: %d %v, %d of %d bytes", bad, c, w.Code, w.Header(), w.Body.Len(), n)}
		}
		return h.Outcome{Class: "file", Sig: fmt.Sprint(c), Sample: fmt.Sprintf("%+v: %d bytes, %s", c, n, s.typ[c.Name])}
	}
}

// what is at /h/x.txt (and at /h/index.html): contents, nothing, or a directory
var states = []string{"first", "other", "first and longer", "", "absent", "directory", "directory with index", "directory as index", "pipe", "socket"}

func history(ctx *h.Ctx) func(HistCase) h.Outcome {
	return func(c HistCase) h.Outcome {
		key := "h" + c.Kind
		if fileSites[key] == nil {
			fileSites[key] = newFileSite(ctx, c.Kind)
		}
		s := fileSites[key]
		f := s.dir + "/www/h/x.txt"
		show := func(what string, i int, w *httptest.ResponseRecorder) h.Outcome {
			return h.Outcome{Class: "differs", Key: what, Bad: fmt.Sprintf("%s\n%s site, after change %d of %v: %d %v %q", what, c.Kind, i, c.Ops, w.Code, w.Header(), w.Body.String())}
		}
		n := 0
		for i, op := range c.Ops {
			os.RemoveAll(s.dir + "/www/h")
			os.MkdirAll(s.dir+"/www/h", 0o755)
			os.Chmod(s.dir+"/www/h", 0o755)
			st := states[op%len(states)]
			switch st {
			case "absent":
			case "directory":
				os.MkdirAll(f, 0o755)
			case "directory with index":
				h.Put(f+"/f.html", "index of x.txt")
			case "directory as index":
				h.Put(f+"/f.html/private.txt", "private")
			case "pipe":
				syscall.Mkfifo(f, 0o644)
			case "socket":
				if fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0); err == nil {
					syscall.Bind(fd, &syscall.SockaddrUnix{Name: f})
					syscall.Close(fd)
				}
				if fi, err := os.Stat(f); err != nil || fi.Mode()&os.ModeSocket == 0 {
					ctx.Note("a socket cannot be made")
				}
			default:
				h.Put(f, st)
				os.Chtimes(f, mtime, mtime)
			}
			for _, m := range []string{"GET", "HEAD", "GET"} {
				if m == "HEAD" && c.Kind == "download" {
					continue
				}
				n++
				w, pan := h.Serve(s.hd, h.Req(m, "/h/x.txt", "s.test", "10.0.0.1:1"))
				if pan != "" {
					return show("the request panics: "+pan, i, w)
				}
				switch st {
				case "absent", "pipe", "socket":
					if w.Code != 404 || m == "GET" && !strings.Contains(w.Body.String(), "Error 404") {
						return show("what is not there, or is no file, is not answered 404", i, w)
					}
				case "directory", "directory with index", "directory as index":
					if w.Code != 301 && w.Code != 404 {
						return show("a directory is delivered as a file", i, w)
					}
				default:
					want := st
					if m == "HEAD" {
						want = ""
					}
					if w.Code != 200 || w.Body.String() != want || w.Header().Get("Content-Length") != strconv.Itoa(len(st)) || w.Header().Get("Content-Type") != "text/plain" {
						return show("a file is not delivered as it is now", i, w)
					}
				}
				if st == "directory" || st == "directory as index" {
					w, _ := h.Serve(s.hd, h.Req(m, "/h/x.txt/", "s.test", "10.0.0.1:1"))
					if w.Code != 404 || strings.Contains(w.Body.String(), "private") {
						return show("a directory without an index is not answered 404", i, w)
					}
				}
				if st == "directory with index" && c.Kind != "download" {
					w, _ := h.Serve(s.hd, h.Req("GET", "/h/x.txt/", "s.test", "10.0.0.1:1"))
					if w.Code != 200 || w.Body.String() != "index of x.txt" {
						return show("an index is not delivered as it is now", i, w)
					}
				}
			}
		}
		return h.Outcome{Class: fmt.Sprint(len(c.Ops), " changes"), Sig: fmt.Sprint(c), States: len(c.Ops), Transitions: n, Sample: fmt.Sprintf("%+v", c)}
	}
}

// expected parts of a Range header over n bytes: ok false means the whole file, nil parts means 416
func parts(s string, n int) (out [][2]int, ok bool) {
	if !strings.HasPrefix(s, "bytes=") {
		return nil, false
	}
	none := false
	for _, x := range strings.Split(s[6:], ",") {
		x = strings.TrimSpace(x)
		if x == "" {
			continue
		}
		i := strings.Index(x, "-")
		if i < 0 {
			return nil, false
		}
		a, b := strings.TrimSpace(x[:i]), strings.TrimSpace(x[i+1:])
		if a == "" {
			l, err := strconv.Atoi(b)
			if err != nil || l < 0 || b[0] == '-' || b[0] == '+' {
				return nil, false
			}
			if l > n {
				l = n
			}
			if l == 0 {
				none = true
				continue
			}
			out = append(out, [2]int{n - l, n})
			continue
		}
		f, err := strconv.Atoi(a)
		if err != nil || f < 0 {
			return nil, false
		}
		if f >= n {
			none = true
			continue
		}
		e := n - 1
		if b != "" {
			if e, err = strconv.Atoi(b); err != nil || e < f {
				return nil, false
			}
			if e > n-1 {
				e = n - 1
			}
		}
		out = append(out, [2]int{f, e + 1})
	}
	if len(out) == 0 && !none {
		return nil, false
	}
	return out, true
}

func ranges(ctx *h.Ctx) func(RangeCase) h.Outcome {
	return func(c RangeCase) h.Outcome {
		n := 0
		if c.Kind == "download" {
			n = 2
		}
		data := tree[c.File]
		if data == "\x00" {
			data = ""
		}
		w, pan := h.Serve(site(ctx, n), h.Req(c.Method, c.File, "s.test", "10.0.0.1:1", c.Hdr...))
		body, hd := w.Body.String(), w.Header()
		show := func(s string) h.Outcome {
			return h.Outcome{Class: "differs", Key: s, Bad: fmt.Sprintf("%s\n%s %s %q of %q: %d %v %q", s, c.Method, c.File, c.Hdr, data, w.Code, hd, body)}
		}
		if pan != "" {
			return show("the request panics: " + pan)
		}
		rng, cond := "", false
		for i := 0; i < len(c.Hdr); i += 2 {
			switch c.Hdr[i] {
			case "Range":
				rng = c.Hdr[i+1]
			default:
				cond = true
			}
		}
		want := data
		if c.Method == "HEAD" {
			want = ""
		}
		o := h.Outcome{Class: fmt.Sprint(w.Code), Sig: fmt.Sprint(c), Sample: fmt.Sprintf("%s %q -> %d", c.File, c.Hdr, w.Code)}
		ps, isRange := parts(rng, len(data))
		sum := 0
		for _, p := range ps {
			sum += p[1] - p[0]
		}
		// net/http's reading of unusual ranges (empty, reversed, longer than the file) is not the property's subject
		odd := strings.Contains(rng, "=-0") || strings.Contains(rng, ",-0") || len(data) == 0 || rng != "" && !isRange
		for _, x := range strings.Split(strings.TrimPrefix(rng, "bytes="), ",") {
			var a, b int
			if k, _ := fmt.Sscanf(x, "%d-%d", &a, &b); k == 2 && a > b {
				odd = true
			}
		}
		full := w.Code == 200 && body == want && hd.Get("Content-Length") == strconv.Itoa(len(data))
		switch {
		case cond && (w.Code == 304 || w.Code == 412):
			lm := hd.Get("Last-Modified")
			if body != "" || lm != "" && lm != mtime.Format(http.TimeFormat) {
				return show("a conditional answer carries content")
			}
			// only when the header says so
			must := false
			for i := 0; i < len(c.Hdr); i += 2 {
				t, err := http.ParseTime(c.Hdr[i+1])
				switch c.Hdr[i] {
				case "If-Modified-Since":
					must = must || w.Code == 304 && err == nil && !t.Before(mtime)
				case "If-Unmodified-Since":
					must = must || w.Code == 412 && err == nil && t.Before(mtime)
				case "If-Match":
					must = must || w.Code == 412
				case "If-None-Match":
					must = must || c.Hdr[i+1] == "*"
				}
			}
			if !must {
				return show("content is withheld although it is newer than what the client has")
			}
		case odd && w.Code == 416:
		case odd && w.Code == 206 && !strings.Contains(rng, ","):
			if body != "" {
				return show("an empty range delivers content")
			}
		case !isRange || cond && w.Code == 200 || odd && w.Code == 200 || w.Code == 200 && strings.Contains(rng, ","):
			if !full {
				return show("a file is not delivered as it is")
			}
		case len(ps) == 0:
			if w.Code != 416 {
				return show("a range beyond the file is not answered 416")
			}
		case len(ps) == 1:
			p := ps[0]
			x := data[p[0]:p[1]]
			if c.Method == "HEAD" {
				x = ""
			}
			if w.Code != 206 || body != x || hd.Get("Content-Range") != fmt.Sprintf("bytes %d-%d/%d", p[0], p[1]-1, len(data)) || hd.Get("Content-Length") != strconv.Itoa(p[1]-p[0]) {
				return show("a range of a file is not delivered exactly")
			}
		default:
			_, par, err := mime.ParseMediaType(hd.Get("Content-Type"))
			if w.Code != 206 || err != nil {
				return show("several ranges of a file are not delivered")
			}
			if c.Method == "HEAD" {
				break
			}
			mr := multipart.NewReader(strings.NewReader(body), par["boundary"])
			var got []string
			for {
				pt, err := mr.NextPart()
				if err != nil {
					break
				}
				b, _ := io.ReadAll(pt)
				got = append(got, pt.Header.Get("Content-Range")+" "+string(b))
			}
			var exp []string
			for _, p := range ps {
				exp = append(exp, fmt.Sprintf("bytes %d-%d/%d %s", p[0], p[1]-1, len(data), data[p[0]:p[1]]))
			}
			if fmt.Sprint(got) != fmt.Sprint(exp) {
				return show("several ranges of a file are not delivered exactly")
			}
		}
		return o
	}
}

func main() {
	h.Main("C15", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is one request of a site surrounded by secrets, or one range or conditional request of a file; distinct = different site, method and target, or different headers"
		segs := []string{"", ".", "..", "%2e%2e", "%2E.", "..%2f", "..%2f..%2f", "%2f", "..%5c", "%252e%252e", "...", "..;", "a.txt", "index.html", "sub", "deep", "bare", "secret.txt", "www-x", "www", "other", "%00", "..x", "d.html"}
		more := []string{"b.css", "c.pdf", "x.js", "noext", ".hidden", "sp%20ace.txt", "sp+ace.txt", "%2541.txt", "%41.txt", "x%23y.txt", "x#y.txt", "q%3f.txt", "q?.txt", "b%5cc.txt", "b\\c.txt", "%ff.txt", "a;b.txt", "a%3Bb.txt", "%c3%a9.txt", "\u00e9.txt", "empty.txt", "y.json", "A.TXT", "Up.TXT", "up.txt", "UP", "a.txt%00", "a.txt%20", "a.txt.", "..%00", "%2e%2e%2f", "%c0%ae%c0%ae", "%u002e", "main.json", "..%2fsecret.txt", "..%2fwww-x%2fsecret.txt", "%2f..%2fsecret.txt", "list", "%zz", "wwwsecret.txt", "ww"}
		methods := []string{"GET", "HEAD", "POST"}
		p := path(ctx)
		h.Enumerate(ctx, "paths", func(y func(PathCase) bool) {
			one := func(t string) bool {
				for si := range sites {
					for _, m := range methods {
						if !y(PathCase{si, m, t}) {
							return false
						}
					}
				}
				return true
			}
			all := append(append([]string{}, segs...), more...)
			for _, a := range all {
				for _, pre := range []string{"/", "http://s.test/", "", "http:", "//", "/sub/../", "/sub/deep/"} {
					for _, post := range []string{"", "/", "?x=/../secret.txt", "//", "/.", "/.."} {
						if !one(pre + a + post) {
							return
						}
					}
				}
				if a == "" && !one("http://s.test") || a == "" && !one("http://s.test?x") {
					return
				}
				for _, b := range all {
					if !one("/"+a+"/"+b) || !one("/"+a+"/"+b+"/") {
						return
					}
				}
			}
			last := append(append([]string{}, segs...), more[:12]...)
			if ctx.Thorough() {
				last = all
			}
			for _, a := range segs {
				for _, b := range segs {
					for _, c := range last {
						for _, post := range []string{"", "/"} {
							for si := range sites {
								if !y(PathCase{si, "GET", "/" + a + "/" + b + "/" + c + post}) {
									return
								}
							}
						}
						if ctx.Thorough() {
							for _, d := range []string{"..", "%2e%2e", "..%2f", "a.txt", "secret.txt", "www-x", ""} {
								for _, si := range []int{0, 1, 2} {
									if !y(PathCase{si, "GET", "/" + a + "/" + b + "/" + c + "/" + d}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, p)
		var rs []string
		for a := -1; a < 9; a++ {
			for b := -1; b < 9; b++ {
				x, z := "", ""
				if a >= 0 {
					x = strconv.Itoa(a)
				}
				if b >= 0 {
					z = strconv.Itoa(b)
				}
				rs = append(rs, x+"-"+z)
			}
		}
		h.Enumerate(ctx, "ranges", func(y func(RangeCase) bool) {
			files := []string{"/a.txt", "/sub/deep/c.pdf", "/empty.txt", "/noext"}
			sort.Strings(files)
			for _, k := range []string{"serve", "download"} {
				for _, f := range files {
					for _, m := range []string{"GET", "HEAD"} {
						if m == "HEAD" && k == "download" {
							continue
						}
						for _, r := range rs {
							if !y(RangeCase{k, f, m, []string{"Range", "bytes=" + r}}) || !y(RangeCase{k, f, m, []string{"Range", "Bytes=" + r}}) {
								return
							}
							for _, r2 := range rs {
								if !y(RangeCase{k, f, m, []string{"Range", "bytes=" + r + "," + r2}}) {
									return
								}
							}
						}
						times := []time.Time{mtime.Add(-time.Hour), mtime.Add(-time.Second), mtime, mtime.Add(time.Hour)}
						for _, hn := range []string{"If-Modified-Since", "If-Unmodified-Since", "If-None-Match", "If-Match", "If-Range"} {
							vs := []string{"x", "\"x\"", "*", ""}
							for _, t := range times {
								vs = append(vs, t.Format(http.TimeFormat))
							}
							for _, v := range vs {
								if !y(RangeCase{k, f, m, []string{hn, v}}) || !y(RangeCase{k, f, m, []string{hn, v, "Range", "bytes=1-2"}}) {
									return
								}
							}
						}
					}
				}
			}
		}, ranges(ctx))
		h.Enumerate(ctx, "files", func(y func(FileCase) bool) {
			for _, k := range []string{"serve", "download", "vhost"} {
				names, _, _ := files(k)
				for _, n := range names {
					if !y(FileCase{k, n, "GET"}) || k != "download" && !y(FileCase{k, n, "HEAD"}) {
						return
					}
				}
			}
		}, file(ctx))
		depth := 3
		if ctx.Thorough() {
			depth = 4
		}
		h.Enumerate(ctx, "histories", func(y func(HistCase) bool) {
			for _, k := range []string{"serve", "download", "vhost"} {
				total := 1
				for i := 0; i < depth; i++ {
					total *= len(states)
				}
				for x := 0; x < total; x++ {
					var ops []int
					for v, i := x, 0; i < depth; i++ {
						ops = append(ops, v%len(states))
						v /= len(states)
					}
					if !y(HistCase{k, ops}) {
						return
					}
				}
			}
		}, history(ctx))
		ctx.Bound("files of every documented media type in 9 spellings and of %d sizes up to 65 MB, %d odd or long names, 3 kinds of sites; all histories of %d changes among %d states of a file", len(sizes)+len(big), 37, depth, len(states))
		ctx.Bound("%d path segments alone in 8 forms and in all pairs, %d in all triples (thorough: quadruples), %d sites x 3 methods; all single and double ranges with bounds up to 8 of 4 files", len(segs)+len(more), len(segs), len(sites))
		ctx.Assume("file names are valid UTF-8 (net/http refuses others)", "links inside the served directory are the operator's choice and not in the tree", "a file called index.html may be redirected to its directory where it is the index, and a directory without slash to itself with one")
	})
}
