// C06: basic authentication. Every user table of an alphabet against every Authorization header built from
// it, on the middleware and on the metrics page of real server configurations.
package main

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"net/url"
	"path/filepath"
	"sort"
	"strings"

	"github.com/redmaner/MaguroHTTP/guard"
	"verif/h"
	"verif/vsched"
)

// Case is a user table and how it is enforced.
type Case struct {
	Mode  string // simple, users, func, metrics, metrics-vhost
	Users map[string]string
	Near  bool // try what is nearly a user's name and password
}

// near are spellings close to s.
func near(s string) (out []string) {
	seen := map[string]bool{}
	add := func(v string) {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	add(s)
	for _, n := range []int{1, 8, 16, 20, 31, 32, 55, 56, 63, 64, 71, 72, 73, 127, 128, 255, 256, 1023, 1024, 4096, len(s) - 1} {
		if n >= 0 && n < len(s) {
			add(s[:n])
			add(s[:n] + strings.Repeat("?", len(s)-n)) // right up to n
			add(s[n:])
		}
	}
	for _, v := range []string{s + "x", "x" + s, s + " ", " " + s, s + "\x00", s + "\n", s + "\r\n", "\n" + s, s + "\t", s + ":", s + s, strings.ToUpper(s), strings.ToLower(s), strings.TrimSpace(s), strings.Trim(s, "\x00"), url.QueryEscape(s), url.PathEscape(s), strings.ReplaceAll(s, "+", " "), strings.ReplaceAll(s, "\u00e9", "e\u0301"), strings.ToValidUTF8(s, "\ufffd"), strings.ToValidUTF8(s, ""), "\"" + s + "\"", ""} {
		add(v)
	}
	return
}

func nearAttempts(users map[string]string) (out []attempt) {
	var ks []string
	for u := range users {
		ks = append(ks, u)
	}
	sort.Strings(ks)
	put := func(u, p string) {
		full := u + ":" + p
		i := strings.Index(full, ":")
		out = append(out, attempt{[]string{"Basic " + b64(full)}, full[:i], full[i+1:], true})
	}
	for _, u := range ks {
		for _, v := range near(users[u]) {
			put(u, v)
		}
		for _, v := range near(u) {
			put(v, users[u])
		}
		for _, o := range ks {
			put(u, users[o])
		}
	}
	return
}

var names = []string{"", "a", "b", "ab", "A", "a:b", "é"}
var passes = []string{"", "a", "b", "x:y", "é", "secret"}

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

type attempt struct {
	hdr  []string // Authorization values
	user string
	pass string
	ok   bool // a well-formed credential header
}

func attempts() (out []attempt) {
	for _, n := range names {
		for _, p := range passes {
			full := n + ":" + p
			i := strings.Index(full, ":")
			good := attempt{[]string{"Basic " + b64(full)}, full[:i], full[i+1:], true}
			out = append(out, good)
			for _, hd := range []string{"Bearer " + b64(full), "Basic" + b64(full), "Basic " + full, b64(full), "Digest username=" + n} {
				out = append(out, attempt{hdr: []string{hd}})
			}
		}
		out = append(out, attempt{hdr: []string{"Basic " + b64(n)}, ok: strings.Contains(n, ":"), user: strings.SplitN(n, ":", 2)[0], pass: strings.SplitN(n+":", ":", 3)[1]})
	}
	for _, hd := range []string{"", "Basic", "Basic ", "Basic !!!!", "Basic =", "Basic " + b64("a"), "Basic " + b64("\x00:\x00"), "Basic " + b64("a\x00:a"), "Basic " + b64("a:a") + "=", "Basic  " + b64("a:a")} {
		out = append(out, attempt{hdr: []string{hd}, ok: strings.Contains(hd, b64("\x00:\x00")) || strings.Contains(hd, b64("a\x00:a")), user: "nobody-has-this-name", pass: ""})
	}
	return append(out, attempt{})
}

func allowed(users map[string]string, a attempt) bool {
	p, known := users[a.user]
	return a.ok && known && p == a.pass
}

func run(ctx *h.Ctx) func(Case) h.Outcome {
	return func(c Case) h.Outcome {
		var hd http.Handler
		ran := 0
		target, host := "/page", "one.test"
		var others []string
		switch c.Mode {
		case "simple", "users", "func", "func-deny":
			ba := guard.SimpleBasicAuth(c.Users)
			switch c.Mode {
			case "users":
				ba = &guard.BasicAuth{Realm: "r", Users: map[string]guard.AuthUser{}}
				for k, v := range c.Users {
					ba.Users[k] = guard.AuthUser{User: k, Password: v}
				}
			case "func":
				ba = &guard.BasicAuth{Realm: "r", AuthFunc: func(u, p string, r *http.Request) bool {
					v, ok := c.Users[u]
					return ok && v == p && r != nil
				}}
			case "func-deny":
				ba = guard.SimpleBasicAuth(c.Users)
				ba.AuthFunc = func(u, p string, r *http.Request) bool { return false }
			}
			hd = ba.Authenticate(func(w http.ResponseWriter, r *http.Request) { ran++; w.Write([]byte("MaguroHTTP metrics")) })
		default:
			dir := ctx.Dir("auth")
			defer ctx.Remove(dir)
			core := h.Core(dir)
			core["LogOut"] = "/dev/null"
			m := h.M{"Enabled": true, "Path": "/stats", "Out": filepath.Join(dir, "metrics.json")}
			if len(c.Users) > 0 {
				m["Users"] = c.Users
			}
			core["Metrics"] = m
			core["TLS"] = h.M{"Enabled": true, "TLSCert": "x", "TLSKey": "y"}
			cfg := h.M{"Core": core}
			h.Put(filepath.Join(dir, "www", "index.html"), "hello")
			serve := h.M{"ServeDir": filepath.Join(dir, "www"), "ServeIndex": "index.html", "Methods": h.M{"/": "GET"}}
			if c.Mode == "metrics-vhost" {
				core["VirtualHosting"] = true
				core["VirtualHosts"] = h.M{"one.test": h.PutJSON(filepath.Join(dir, "v.json"), h.M{"Serve": serve, "Guard": h.Generous()})}
			} else {
				cfg["Serve"] = serve
				cfg["Guard"] = h.Generous()
			}
			hd = h.Server(dir, cfg).Router
			target = "/stats"
			others = []string{"//stats", "/stats/", "/x/../stats", "/stats/x", "/./stats", "/STATS", "/%73tats", "/stats?x=y"}
		}
		n, in := 0, 0
		ask := func(method, path string, a attempt, exact bool) string {
			n++
			ran = 0
			u, _ := url.Parse(path)
			r := &http.Request{Method: method, Host: host, URL: u, RequestURI: path, Header: http.Header{}, RemoteAddr: "10.0.0.1:1"}
			if a.hdr != nil {
				r.Header["Authorization"] = a.hdr
			}
			w, pan := h.Serve(hd, r)
			if pan != "" {
				return "panic\n" + pan
			}
			ok := allowed(c.Users, a)
			if c.Mode == "func-deny" {
				ok = false
			}
			shown := strings.Contains(w.Body.String(), "MaguroHTTP metrics") || ran > 0
			if shown {
				in++
			}
			d := fmt.Sprintf("\nmode %s, users %q, %s %s with Authorization %q: status %d, WWW-Authenticate %q, page shown %v", c.Mode, c.Users, method, path, a.hdr, w.Code, w.Header().Get("WWW-Authenticate"), shown)
			if shown && !ok {
				return "the protected page is shown without valid credentials" + d
			}
			if exact {
				if ok && (!shown || w.Code != 200) {
					return "valid credentials are refused" + d
				}
				if !ok && (w.Code != 401 || !strings.HasPrefix(w.Header().Get("WWW-Authenticate"), "Basic realm=")) {
					return "a refused request is not answered 401 with a Basic challenge" + d
				}
			}
			return ""
		}
		list := attempts()
		if c.Near {
			list = nearAttempts(c.Users)
			if len(others) > 2 {
				others = others[:2]
			}
		}
		for _, a := range list {
			if bad := ask("GET", target, a, true); bad != "" {
				return h.Outcome{Class: "differs", Bad: bad}
			}
			for _, p := range others {
				for _, m := range []string{"GET", "POST", "HEAD"} {
					if bad := ask(m, p, a, false); bad != "" {
						return h.Outcome{Class: "differs", Bad: bad}
					}
				}
			}
		}
		return h.Outcome{Class: fmt.Sprintf("%s, %d users", c.Mode, len(c.Users)), Sig: fmt.Sprint(c), States: n, Transitions: n, Sample: fmt.Sprintf("%+v: %d of %d attempts admitted", c, in, n)}
	}
}

func main() {
	h.Main("C06", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is a user table and a mode of enforcement; every Authorization header of the alphabet is tried; distinct = different cases"
		gen := func(modes, ns, ps []string) func(func(Case) bool) {
			return func(y func(Case) bool) {
				for _, m := range modes {
					var rec func(i int, u map[string]string) bool
					rec = func(i int, u map[string]string) bool {
						if i == len(ns) {
							cp := map[string]string{}
							for k, v := range u {
								cp[k] = v
							}
							return y(Case{Mode: m, Users: cp})
						}
						if !rec(i+1, u) {
							return false
						}
						for _, p := range ps {
							u[ns[i]] = p
							if !rec(i+1, u) {
								return false
							}
							delete(u, ns[i])
						}
						return true
					}
					if !rec(0, map[string]string{}) {
						return
					}
				}
			}
		}
		if !vsched.RaceEnabled {
			h.Enumerate(ctx, "middleware", gen([]string{"simple", "users", "func", "func-deny"}, []string{"", "a", "b", "é"}, []string{"", "a", "x:y", "secret"}), run(ctx))
			h.Enumerate(ctx, "metrics page", gen([]string{"metrics", "metrics-vhost"}, []string{"a", "b", "ab"}, []string{"a", "x:y", "secret"}), run(ctx))
			h.Enumerate(ctx, "odd credentials", func(y func(Case) bool) {
				var odd []string
				for _, n := range []int{1, 8, 20, 32, 56, 63, 64, 65, 71, 72, 73, 100, 128, 129, 255, 256, 257, 1024, 1025, 5000} {
					odd = append(odd, strings.Repeat("p", n), strings.Repeat("Ab1-", n/4)+"zzzz"[:n%4])
				}
				odd = append(odd, " ", " lead", "trail ", "tab\tin", "new\nline", "\x00", "nul\x00nul", "a+b", "a%41b", "%", "caf\u00e9", "cafe\u0301", "\u65e5\u672c", "\"quoted\"", "back\\slash", "$2a$10$abcdefghijklmnopqrstuv", "{SHA}x", "MiXeD", "0", "null", "*", "&amp;", "<b>")
				for _, m := range []string{"simple", "users", "metrics"} {
					for _, v := range odd {
						for _, us := range []map[string]string{{"user": v}, {v: "Secret"}, {v: v}, {"user": v, "other": v + "2"}} {
							if !y(Case{m, us, true}) {
								return
							}
						}
					}
				}
			}, run(ctx))
		}
		// two clients at once on one handler
		var scs []h.Scenario
		for _, custom := range []bool{false, true} {
			custom := custom
			scs = append(scs, h.Scenario{Name: fmt.Sprintf("two clients, custom handlers %v", custom), Bound: 2, Thorough: 3, Make: func() ([]vsched.Body, func(), func() (string, string)) {
				ba := guard.SimpleBasicAuth(map[string]string{"a": "b"})
				if custom {
					ba.AuthFunc = func(u, p string, r *http.Request) bool { return u == "a" && p == "b" }
					ba.UnauthorizedHandler = func(w http.ResponseWriter, r *http.Request, code int) { http.Error(w, "no", code) }
				}
				hd := ba.Authenticate(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("in")) })
				var ops []*h.LinOp
				var bodies []vsched.Body
				for _, cr := range []string{"a:b", ":", "a:c"} {
					o := &h.LinOp{Name: cr}
					ops = append(ops, o)
					bodies = append(bodies, vsched.Body{Name: "client " + cr, F: func() {
						o.Do(func() string {
							w := h.NewRec()
							hd(w, &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: http.Header{"Authorization": {"Basic " + b64(o.Name)}}})
							return fmt.Sprint(w.Status())
						})
					}})
				}
				return bodies, nil, func() (string, string) {
					cl := h.Answers(ops)
					if cl != "a:b=200 :=401 a:c=401" {
						return cl, "concurrent clients are judged wrongly\n" + h.History(ops)
					}
					return cl, ""
				}
			}})
		}
		h.Schedules(ctx, 2, scs)
		ctx.Bound("all user tables over 4 names x 4 passwords (metrics page: 3 x 3); about 260 Authorization headers each, all spellings of the metrics path; 63 odd names and passwords with about 100 near misses each")
		ctx.Assume("the metrics user table of the configuration holds non-empty names and passwords")
	})
}
