// C27: upstreams reached over TLS. Proxied sites whose rules name https:// targets, in front of upstreams with
// every kind of certificate and protocol: only the upstream that proves to be the named one gets the request.
package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/redmaner/MaguroHTTP/tuna"
	"verif/h"
)

// Case is a history of contacts with one upstream through one site.
type Case struct {
	Site   int
	Target string
	Steps  []Step
}

// Step is one request while the upstream is of a kind.
type Step struct {
	Kind string
	Req  int
	Keep bool // the upstream keeps the connection open
}

type kind struct {
	name    string
	good    bool // proves to be up.test (and *.up.test, 127.0.0.7, ::7)
	certs   func(a *authority) tls.Certificate
	min     uint16
	max     uint16
	client  bool   // demands a certificate of the client
	raw     string // no TLS: what it says
	eof     bool   // no TLS: closes at once
	late    bool   // says raw after it has read something
	suites  []uint16
	protos  []string
	slow    bool
	silence bool // never answers the handshake
}

type authority struct {
	cert *x509.Certificate
	key  crypto.Signer
	der  []byte
}

var serial int64

func issue(parent *authority, f func(t *x509.Certificate), useRSA bool) *authority {
	var key crypto.Signer
	var err error
	if useRSA {
		key, err = rsa.GenerateKey(rand.Reader, 2048)
	} else {
		key, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	}
	if err != nil {
		panic(err)
	}
	serial++
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: fmt.Sprint("certificate ", serial)}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, BasicConstraintsValid: true}
	f(t)
	p := &authority{t, key, nil}
	if parent != nil {
		p = parent
	}
	der, err := x509.CreateCertificate(rand.Reader, t, p.cert, key.Public(), p.key)
	if err != nil {
		panic(err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &authority{c, key, der}
}

func ca(t *x509.Certificate) {
	t.IsCA, t.KeyUsage, t.ExtKeyUsage = true, x509.KeyUsageCertSign|x509.KeyUsageDigitalSignature, nil
}

// names of the upstream
func names(t *x509.Certificate) {
	t.DNSNames, t.IPAddresses = []string{"up.test", "x.up.test"}, []net.IP{net.ParseIP("127.0.0.7"), net.ParseIP("::7")}
}

func with(fs ...func(t *x509.Certificate)) func(t *x509.Certificate) {
	return func(t *x509.Certificate) {
		for _, f := range fs {
			f(t)
		}
	}
}

func chain(as ...*authority) tls.Certificate {
	c := tls.Certificate{PrivateKey: as[0].key}
	for _, a := range as {
		c.Certificate = append(c.Certificate, a.der)
	}
	return c
}

func leaf(f ...func(t *x509.Certificate)) func(a *authority) tls.Certificate {
	return func(a *authority) tls.Certificate { return chain(issue(a, with(f...), false)) }
}

func dns(n ...string) func(t *x509.Certificate) {
	return func(t *x509.Certificate) { t.DNSNames, t.IPAddresses = n, nil }
}

func valid(from, to time.Duration) func(t *x509.Certificate) {
	return func(t *x509.Certificate) { t.NotBefore, t.NotAfter = time.Now().Add(from), time.Now().Add(to) }
}

var other *authority // nobody trusts it

const page = "HTTP/1.1 200 OK\r\nContent-Length: 4\r\nX-Upstream: plain\r\n\r\nEVIL"

var kinds = []kind{
	{name: "good", good: true, certs: leaf(names)},
	{name: "good, RSA", good: true, certs: func(a *authority) tls.Certificate { return chain(issue(a, names, true)) }},
	{name: "good, intermediate sent", good: true, certs: func(a *authority) tls.Certificate {
		i := issue(a, ca, false)
		return chain(issue(i, names, false), i)
	}},
	{name: "good, root and others sent", good: true, certs: func(a *authority) tls.Certificate {
		return chain(issue(a, names, false), a, other)
	}},
	{name: "good, TLS 1.2", good: true, certs: leaf(names), max: tls.VersionTLS12},
	{name: "good, TLS 1.3", good: true, certs: leaf(names), min: tls.VersionTLS13},
	{name: "good, names its protocol", good: true, certs: leaf(names), protos: []string{"http/1.1"}},
	{name: "intermediate missing", certs: func(a *authority) tls.Certificate {
		return chain(issue(issue(a, ca, false), names, false))
	}},
	{name: "intermediate is no authority", certs: func(a *authority) tls.Certificate {
		i := issue(a, names, false)
		return chain(issue(i, names, false), i)
	}},
	{name: "intermediate expired", certs: func(a *authority) tls.Certificate {
		i := issue(a, with(ca, valid(-48*time.Hour, -24*time.Hour)), false)
		return chain(issue(i, names, false), i)
	}},
	{name: "intermediate for other names", certs: func(a *authority) tls.Certificate {
		i := issue(a, with(ca, func(t *x509.Certificate) {
			t.PermittedDNSDomainsCritical, t.PermittedDNSDomains, t.ExcludedIPRanges = true, []string{"else.test"}, []*net.IPNet{{IP: net.IPv4zero.To4(), Mask: net.CIDRMask(0, 32)}, {IP: net.IPv6zero, Mask: net.CIDRMask(0, 128)}}
		}), false)
		return chain(issue(i, names, false), i)
	}},
	{name: "self-signed", certs: func(a *authority) tls.Certificate { return chain(issue(nil, names, false)) }},
	{name: "self-signed authority", certs: func(a *authority) tls.Certificate { return chain(issue(nil, with(ca, names), false)) }},
	{name: "unknown authority", certs: func(a *authority) tls.Certificate { return chain(issue(other, names, false), other) }},
	{name: "unknown authority with the trusted one's name", certs: func(a *authority) tls.Certificate {
		f := issue(nil, with(ca, func(t *x509.Certificate) { t.Subject = a.cert.Subject }), false)
		return chain(issue(f, names, false), f)
	}},
	{name: "expired", certs: leaf(names, valid(-48*time.Hour, -time.Hour))},
	{name: "not valid yet", certs: leaf(names, valid(time.Hour, 48*time.Hour))},
	{name: "another name", certs: leaf(dns("other.test"))},
	{name: "a name that ends alike", certs: leaf(dns("notup.test", "up.test.x", "test", "*.x.up.test"))},
	{name: "another wildcard", certs: leaf(dns("*.test.up", "*.y.up.test", "u*.test"))},
	{name: "only a common name", certs: leaf(dns(), func(t *x509.Certificate) { t.Subject.CommonName = "up.test" })},
	{name: "another address", certs: leaf(dns(), func(t *x509.Certificate) { t.IPAddresses = []net.IP{net.ParseIP("127.0.0.8"), net.ParseIP("::8")} })},
	{name: "address as a name", certs: leaf(func(t *x509.Certificate) { t.DNSNames, t.IPAddresses = []string{"127.0.0.7", "::7"}, nil })},
	{name: "for clients only", certs: leaf(names, func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} })},
	{name: "unknown critical extension", certs: leaf(names, func(t *x509.Certificate) {
		t.ExtraExtensions = []pkix.Extension{{Id: []int{1, 2, 3, 4}, Critical: true, Value: []byte{5, 0}}}
	})},
	{name: "another one's certificate", certs: func(a *authority) tls.Certificate {
		c := chain(issue(a, names, false))
		c.PrivateKey = issue(a, names, false).key
		return c
	}},
	{name: "TLS 1.1", certs: leaf(names), min: tls.VersionTLS10, max: tls.VersionTLS11},
	{name: "TLS 1.0", certs: leaf(names), min: tls.VersionTLS10, max: tls.VersionTLS10},
	{name: "demands a client certificate", certs: leaf(names), client: true},
	{name: "weak ciphers", certs: func(a *authority) tls.Certificate { return chain(issue(a, names, true)) }, max: tls.VersionTLS12, suites: []uint16{tls.TLS_RSA_WITH_3DES_EDE_CBC_SHA, tls.TLS_ECDHE_RSA_WITH_RC4_128_SHA, tls.TLS_RSA_WITH_RC4_128_SHA}},
	{name: "HTTP without TLS", raw: page},
	{name: "HTTP without TLS, after the greeting", raw: page, late: true},
	{name: "nonsense", raw: "\x15\x03\x01\x00\x02\x02\x28", late: true},
	{name: "redirect without TLS", raw: "HTTP/1.1 301 Moved Permanently\r\nLocation: http://up.test/\r\nContent-Length: 0\r\n\r\n", late: true},
	{name: "closes", eof: true},
	{name: "never answers the handshake", silence: true, slow: true},
}

// targets of the rule; the rule's host name and the address that is dialled
var targets = []struct{ rule, addr, sni string }{
	{"https://up.test", "up.test:443", "up.test"}, {"https://up.test:8443", "up.test:8443", "up.test"}, {"https://127.0.0.7", "127.0.0.7:443", ""}, {"https://[::7]:444", "[::7]:444", ""}, {"HTTPS://x.up.test/base", "x.up.test:443", "x.up.test"}, {"https://up.test:80", "up.test:80", "up.test"},
}

// wildcards: good for a name below, nothing else
var wild = kind{name: "wildcard", certs: leaf(dns("*.up.test"))}

type rq struct{ name, raw string }

var reqs = []rq{
	{"GET", "GET /s?SECRET=1 HTTP/1.1\r\nHost: a.test\r\nCookie: SECRET\r\n\r\n"},
	{"POST", "POST /s HTTP/1.1\r\nHost: a.test\r\nContent-Length: 6\r\n\r\nSECRET"},
	{"HEAD", "HEAD /SECRET HTTP/1.1\r\nHost: a.test\r\nAuthorization: SECRET\r\n\r\n"},
	{"absolute", "GET http://a.test/SECRET HTTP/1.1\r\nHost: a.test\r\n\r\n"},
	{"scheme headers", "GET /SECRET HTTP/1.1\r\nHost: a.test:80\r\nX-Forwarded-Proto: http\r\nForwarded: proto=http\r\nUpgrade-Insecure-Requests: 0\r\nX-Forwarded-Host: up.test\r\nConnection: Upgrade\r\nUpgrade: h2c\r\n\r\n"},
	{"chunked", "PUT /s HTTP/1.1\r\nHost: a.test\r\nTransfer-Encoding: chunked\r\n\r\n6\r\nSECRET\r\n0\r\n\r\n"},
}

var siteKinds = []string{"main", "virtual host", "two rules", "with TLS of its own", "with private authorities"}

type contact struct {
	addr, kind string
	plain      []byte // what arrived before or instead of TLS
	sni        string
	version    uint16
	got        []byte // what arrived inside TLS
}

type world struct {
	mu    sync.Mutex
	now   Step
	addr  string
	got   []*contact
	certs map[string]tls.Certificate
	s     *tuna.Server
	front *h.Front
	conns []net.Conn
}

// tap keeps what an upstream reads.
type tap struct {
	net.Conn
	w *world
	c *contact
}

func (t *tap) Read(b []byte) (int, error) {
	n, err := t.Conn.Read(b)
	t.w.mu.Lock()
	t.c.plain = append(t.c.plain, b[:n]...)
	t.w.mu.Unlock()
	return n, err
}

var line struct {
	sync.Mutex
	l net.Listener
}

// wire is a connection with both its ends (of the operating system, since both ends may have to write at once).
func wire() (net.Conn, net.Conn) {
	line.Lock()
	defer line.Unlock()
	var err error
	if line.l == nil {
		if line.l, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
			panic(err)
		}
	}
	a, err := net.Dial("tcp", line.l.Addr().String())
	if err != nil {
		panic(err)
	}
	for {
		b, err := line.l.Accept()
		if err != nil {
			panic(err)
		}
		if b.RemoteAddr().String() == a.LocalAddr().String() {
			return a, b
		}
		b.Close()
	}
}

func (w *world) dial(ctx context.Context, _, addr string) (net.Conn, error) {
	a, b := wire()
	w.mu.Lock()
	st := w.now
	c := &contact{addr: addr, kind: st.Kind}
	w.got = append(w.got, c)
	w.conns = append(w.conns, b)
	w.mu.Unlock()
	go w.upstream(&tap{b, w, c}, c, st)
	return a, nil
}

func (w *world) upstream(conn net.Conn, c *contact, st Step) {
	defer conn.Close()
	k := find(st.Kind)
	switch {
	case k.eof:
		return
	case k.silence:
		io.Copy(io.Discard, conn)
		return
	case k.raw != "":
		if k.late {
			conn.Read(make([]byte, 1))
		}
		go io.WriteString(conn, k.raw)
		io.Copy(io.Discard, conn)
		return
	}
	cfg := &tls.Config{Certificates: []tls.Certificate{w.certs[k.name]}, MinVersion: k.min, MaxVersion: k.max, CipherSuites: k.suites, NextProtos: k.protos}
	if k.client {
		cfg.ClientAuth = tls.RequireAnyClientCert
	}
	t := tls.Server(conn, cfg)
	if t.Handshake() != nil {
		return
	}
	state := t.ConnectionState()
	w.mu.Lock()
	c.sni, c.version = state.ServerName, state.Version
	w.mu.Unlock()
	br := bufio.NewReader(io.TeeReader(t, writer(func(b []byte) {
		w.mu.Lock()
		c.got = append(c.got, b...)
		w.mu.Unlock()
	})))
	for {
		r, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		io.Copy(io.Discard, r.Body)
		end := ""
		if !st.Keep {
			end = "Connection: close\r\n"
		}
		body := "answer"
		if r.Method == "HEAD" {
			body = ""
		}
		if _, err := fmt.Fprintf(t, "HTTP/1.1 200 OK\r\nContent-Length: 6\r\nX-Upstream: %s\r\n%s\r\n%s", k.name, end, body); err != nil || !st.Keep {
			t.Close()
			return
		}
	}
}

type writer func(b []byte)

func (f writer) Write(b []byte) (int, error) { f(b); return len(b), nil }

func find(name string) kind {
	if name == wild.name {
		return wild
	}
	for _, k := range kinds {
		if k.name == name {
			return k
		}
	}
	panic(name)
}

var root *authority
var certs = map[string]tls.Certificate{}

func setup(dir string) {
	if root != nil {
		return
	}
	root, other = issue(nil, ca, false), issue(nil, ca, false)
	for _, k := range append([]kind{wild}, kinds...) {
		if k.certs != nil {
			certs[k.name] = k.certs(root)
		}
	}
	// the authorities that the machine trusts
	h.Put(dir+"/roots.pem", string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: root.der})))
	os.Mkdir(dir+"/none", 0o755)
	os.Setenv("SSL_CERT_FILE", dir+"/roots.pem")
	os.Setenv("SSL_CERT_DIR", dir+"/none")
}

var worlds = map[string]*world{}

func newWorld(ctx *h.Ctx, site int, target string) *world {
	id := fmt.Sprint(site, target)
	if w := worlds[id]; w != nil {
		return w
	}
	dir := ctx.Dir("site")
	core := h.Core(dir)
	core["LogOut"] = "/dev/null"
	cfg := h.M{"Core": core}
	rules := h.M{"a.test": target}
	if siteKinds[site] == "two rules" {
		rules["b.test"] = strings.Replace(strings.ToLower(target), "https:", "http:", 1)
	}
	sec := h.M{"Guard": h.Generous(), "Proxy": h.M{"Enabled": true, "Rules": rules, "Methods": []string{"GET", "POST", "HEAD", "PUT"}}}
	switch siteKinds[site] {
	case "virtual host":
		core["VirtualHosting"], core["VirtualHosts"] = true, h.M{"a.test": h.PutJSON(dir+"/a.json", sec)}
	default:
		cfg["Guard"], cfg["Proxy"] = sec["Guard"], sec["Proxy"]
	}
	switch siteKinds[site] {
	case "with TLS of its own":
		core["TLS"] = h.Cert(dir)
	case "with private authorities": // the roots of the machine again, a leaf and files that cannot be used
		t := h.Cert(dir)
		t["PrivateCA"] = []string{os.Getenv("SSL_CERT_FILE"), dir + "/missing.pem", h.Put(dir+"/empty.pem", "")}
		core["TLS"] = t
	}
	w := &world{certs: certs, s: h.Server(dir, cfg)}
	h.Dialer(w.s, w.dial)
	w.front = h.NewFront(w.s.Router)
	worlds[id] = w
	return w
}

func (w *world) one(site int, target string, st Step) (string, string) {
	k := find(st.Kind)
	var tg struct{ rule, addr, sni string }
	for _, t := range targets {
		if t.rule == target {
			tg = t
		}
	}
	good := k.good || k.name == wild.name && tg.sni == "x.up.test"
	w.mu.Lock()
	w.now, w.got = st, nil
	w.mu.Unlock()
	c := w.front.Dial("10.0.0.1:1234")
	defer c.Close()
	c.SetDeadline(time.Now().Add(30 * time.Second))
	go io.WriteString(c, reqs[st.Req].raw)
	a := h.ReadAnswer(bufio.NewReader(c), strings.SplitN(reqs[st.Req].raw, " ", 2)[0])
	w.mu.Lock()
	defer w.mu.Unlock()
	var what []string
	bad := ""
	for _, x := range w.got {
		what = append(what, fmt.Sprintf("%s (%s): name %q, %s, %d bytes, %d bytes inside TLS", x.addr, x.kind, x.sni, tls.VersionName(x.version), len(x.plain), len(x.got)))
		switch {
		case x.addr != tg.addr:
			bad = "another host is contacted"
		case len(x.plain) > 0 && x.plain[0] != 0x16 || bytes.Contains(x.plain, []byte("SECRET")):
			bad = "a request to an upstream with TLS is sent without TLS"
		case len(x.got) > 0 && !good:
			bad = "a request is sent to an upstream that does not prove to be the named one"
		case len(x.got) > 0 && (x.sni != tg.sni || x.version < tls.VersionTLS12):
			bad = "the upstream is asked for another name, or weakly encrypted"
		}
	}
	switch {
	case bad != "":
	case len(w.got) == 0 && !good:
		// cannot happen: a bad upstream leaves no connection behind
		bad = "the upstream is not contacted"
	case a.Err != nil:
		bad = "the request is not answered"
	case good && (a.Status != 200 || a.Header.Get("X-Upstream") == "" || strings.HasPrefix(reqs[st.Req].raw, "GET") && string(a.Body) != "answer"):
		bad = "a request to an upstream that proves to be the named one is not answered by it"
	case !good && a.Status != 502:
		bad = "an upstream that does not prove to be the named one is not answered 502"
	case !good && (a.Header.Get("X-Upstream") != "" || bytes.Contains(a.Body, []byte("EVIL")) || bytes.Contains(a.Body, []byte("answer"))):
		bad = "the answer of an upstream that does not prove to be the named one is shown"
	}
	if bad != "" {
		return "differs", fmt.Sprintf("%s\n%s, rule %s, upstream %q, request %s: answer %d %v %q (%v)\n%s", bad, siteKinds[site], target, k.name, reqs[st.Req].name, a.Status, a.Header, a.Body, a.Err, strings.Join(what, "\n"))
	}
	return fmt.Sprint("proves to be the named one: ", good), ""
}

func run(ctx *h.Ctx) func(Case) h.Outcome {
	return func(c Case) h.Outcome {
		w := newWorld(ctx, c.Site, c.Target)
		defer func() {
			// the next history begins without connections
			w.s.Transport.(interface{ CloseIdleConnections() }).CloseIdleConnections()
			w.mu.Lock()
			for _, x := range w.conns {
				x.Close()
			}
			w.conns = nil
			w.mu.Unlock()
		}()
		kept, class := "", ""
		for i, st := range c.Steps {
			if kept != "" && st.Kind != kept {
				// another upstream has taken the place of one whose connections stay usable: it loses them
				w.s.Transport.(interface{ CloseIdleConnections() }).CloseIdleConnections()
			}
			cl, bad := w.one(c.Site, c.Target, st)
			if bad != "" {
				return h.Outcome{Class: cl, Bad: fmt.Sprintf("%s\nstep %d of %+v", bad, i+1, c.Steps)}
			}
			class, kept = cl, st.Kind
		}
		if len(c.Steps) > 1 {
			class = "history"
		}
		return h.Outcome{Class: class, Sig: fmt.Sprint(c), States: 2 * len(c.Steps), Transitions: len(c.Steps), Sample: fmt.Sprintf("%+v", c)}
	}
}

func main() {
	h.Main("C27", 8, func(ctx *h.Ctx) {
		setup(ctx.Dir("roots"))
		ctx.Res.Rule = "a case is a history of requests to a proxied site whose rule names an https:// target, with the kind of upstream at each request; distinct = different histories"
		r := run(ctx)
		h.Enumerate(ctx, "upstreams", func(y func(Case) bool) {
			for s := range siteKinds {
				for _, t := range targets {
					for _, k := range append([]kind{wild}, kinds...) {
						for q := range reqs {
							if k.slow || k.name == wild.name && !strings.Contains(t.rule, "x.up.test") && t.sni == "" {
								continue
							}
							if !y(Case{s, t.rule, []Step{{k.name, q, false}}}) {
								return
							}
						}
					}
				}
			}
		}, r)
		h.Enumerate(ctx, "stalled handshakes", func(y func(Case) bool) {
			for s := range siteKinds {
				for _, t := range targets[:2] {
					for _, k := range kinds {
						if k.slow && !y(Case{s, t.rule, []Step{{k.name, 0, false}}}) {
							return
						}
					}
				}
			}
		}, r)
		h.Enumerate(ctx, "histories", func(y func(Case) bool) {
			ks := []string{"good", "self-signed", "another name", "expired", "HTTP without TLS, after the greeting", "TLS 1.1", "good, TLS 1.2"}
			n := 3
			if ctx.Thorough() || ctx.Replay != nil {
				n = 4
			}
			var rec func(pre []Step, s int, t string) bool
			rec = func(pre []Step, s int, t string) bool {
				if len(pre) == n {
					return y(Case{s, t, append([]Step{}, pre...)})
				}
				for _, k := range ks {
					for _, keep := range []bool{false, true} {
						if keep && !find(k).good {
							continue
						}
						if !rec(append(pre, Step{k, len(pre) % len(reqs), keep}), s, t) {
							return false
						}
					}
				}
				return true
			}
			for s := range siteKinds {
				for _, t := range targets[:1] {
					if !rec(nil, s, t.rule) {
						return
					}
				}
			}
		}, r)
		ctx.Bound("%d kinds of upstreams x %d targets x %d kinds of sites x %d requests; histories of 3 (thorough: 4) requests over 9 kinds of upstreams that take each other's place", len(kinds)+1, len(targets), len(siteKinds), len(reqs))
		ctx.Assume("the authorities that the machine trusts are those of SSL_CERT_FILE", "only the dialer to the upstreams is replaced")
	})
}
