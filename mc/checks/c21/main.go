// C21: TLS is never weaker than promised. The real server binary is started with every combination of
// certificate and key files, and every kind of handshake is tried.
package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"strings"
	"time"

	"verif/h"
)

// FileCase is a combination of certificate and key files.
type FileCase struct{ Cert, Key string }

// ShakeCase is one handshake with a server.
type ShakeCase struct {
	Key     string // kind of the server's key
	Version uint16
	Suite   uint16 // 0: all
	Curve   uint16 // 0: all
	ALPN    string
}

// ProbeCase is one conversation without TLS.
type ProbeCase struct {
	Key, Raw string
}

// NameCase is a handshake with a server that gets its certificates by itself, for a host name.
type NameCase struct {
	Name    string
	Version uint16
	ALPN    string
}

// OptCase is a server with good files and other settings around them.
type OptCase struct{ Key, Opt string }

const port = "8443"

// options are settings that take nothing away from a server with good files
var options = []struct {
	name string
	set  func(w *world, k string, tlsc, cfg h.M)
}{
	{"nothing", func(w *world, k string, t, cfg h.M) {}},
	{"names for automatic certificates that are not enabled", func(w *world, k string, t, cfg h.M) {
		t["AutoCert"] = h.M{"Enabled": false, "Certificates": []string{"tls.test"}}
	}},
	{"private authority", func(w *world, k string, t, cfg h.M) { t["PrivateCA"] = []string{w.file(k, "other", "cert")} }},
	{"private authorities that cannot be used", func(w *world, k string, t, cfg h.M) {
		t["PrivateCA"] = []string{w.dir + "/missing", w.file(k, "empty", "cert"), w.file(k, "garbage", "cert"), w.file(k, "dir", "cert"), ""}
	}},
	{"private authorities, the last usable", func(w *world, k string, t, cfg h.M) {
		t["PrivateCA"] = []string{w.dir + "/missing", w.file(k, "other", "cert"), w.file(k, "good", "cert")}
	}},
	{"HSTS", func(w *world, k string, t, cfg h.M) {
		t["HSTS"] = h.M{"MaxAge": 31536000, "IncludeSubdomains": true, "Preload": true}
	}},
	{"certificate with text around it", func(w *world, k string, t, cfg h.M) { t["TLSCert"] = w.file(k, "wrapped", "cert") }},
	{"certificate and others", func(w *world, k string, t, cfg h.M) { t["TLSCert"] = w.file(k, "chain", "cert") }},
	{"certificate and key in one file", func(w *world, k string, t, cfg h.M) {
		t["TLSCert"], t["TLSKey"] = w.file(k, "both", "cert"), w.file(k, "both", "cert")
	}},
	{"key in its traditional form", func(w *world, k string, t, cfg h.M) { t["TLSKey"] = w.file(k, "old", "key") }},
	{"path with dots", func(w *world, k string, t, cfg h.M) {
		t["TLSCert"] = w.dir + "/./" + k + "/../" + k + "/good.cert"
	}},
	{"virtual host", func(w *world, k string, t, cfg h.M) {
		core := cfg["Core"].(h.M)
		core["VirtualHosting"], core["VirtualHosts"] = true, h.M{"tls.test": h.PutJSON(w.dir+"/"+core["Address"].(string)+"-vhost.json", h.M{"Guard": cfg["Guard"], "Serve": cfg["Serve"]})}
		delete(cfg, "Serve")
		delete(cfg, "Guard")
	}},
	{"WebDAV and metrics", func(w *world, k string, t, cfg h.M) {
		core := cfg["Core"].(h.M)
		core["WebDAV"] = true
		core["Metrics"] = h.M{"Enabled": true, "Path": "/metrics", "Out": w.dir + "/" + core["Address"].(string) + "-metrics.json", "Users": h.M{"u": "p"}}
	}},
	{"limits", func(w *world, k string, t, cfg h.M) {
		core := cfg["Core"].(h.M)
		core["ReadTimeout"], core["ReadHeaderTimeout"], core["WriteTimeout"], core["HeaderMaxBytes"] = 5, 5, 5, 4096
	}},
}

var keys = []string{"rsa", "ecdsa"}

// files that go with every key kind
var kinds = []string{"good", "none", "missing", "empty", "garbage", "dir", "other", "swapped"}

func pair(kind, name string) (cert, key []byte) {
	var pub crypto.PublicKey
	var priv crypto.PrivateKey
	switch kind {
	case "rsa":
		k, err := rsa.GenerateKey(rand.Reader, 2048)
		if err != nil {
			panic(err)
		}
		pub, priv = &k.PublicKey, k
	default:
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		pub, priv = &k.PublicKey, k
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(90 * 24 * time.Hour), DNSNames: []string{"tls.test"}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, pub, priv)
	if err != nil {
		panic(err)
	}
	kb, err := x509.MarshalPKCS8PrivateKey(priv)
	if err != nil {
		panic(err)
	}
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb})
}

type world struct {
	ctx   *h.Ctx
	dir   string
	pool  map[string]*x509.CertPool
	procs map[string]*h.Proc
}

func newWorld(ctx *h.Ctx) *world {
	w := &world{ctx: ctx, dir: ctx.Dir("tls"), pool: map[string]*x509.CertPool{}, procs: map[string]*h.Proc{}}
	for _, k := range keys {
		c, key := pair(k, "good "+k)
		oc, ok := pair(k, "other")
		w.pool[k] = x509.NewCertPool()
		w.pool[k].AppendCertsFromPEM(c)
		d := w.dir + "/" + k
		h.Put(d+"/good.cert", string(c))
		h.Put(d+"/good.key", string(key))
		h.Put(d+"/other.cert", string(oc))
		h.Put(d+"/other.key", string(ok))
		h.Put(d+"/swapped.cert", string(key))
		h.Put(d+"/swapped.key", string(c))
		for _, e := range []string{"cert", "key"} {
			h.Put(d+"/empty."+e, "")
			h.Put(d+"/garbage."+e, "-----BEGIN CERTIFICATE-----\nnonsense\n-----END CERTIFICATE-----\n")
			h.Put(d+"/dir."+e+"/x", "")
		}
	}
	for _, k := range keys {
		read := func(kind, ext string) []byte {
			b, err := os.ReadFile(w.file(k, kind, ext))
			if err != nil {
				panic(err)
			}
			return b
		}
		c, key := read("good", "cert"), read("good", "key")
		h.Put(w.file(k, "wrapped", "cert"), "Certificate:\r\n    Data: text\r\n"+strings.ReplaceAll(string(c), "\n", "\r\n")+"\r\nmore text\r\n")
		h.Put(w.file(k, "chain", "cert"), string(c)+string(read("other", "cert")))
		h.Put(w.file(k, "both", "cert"), string(key)+string(c))
		bl, _ := pem.Decode(key)
		priv, err := x509.ParsePKCS8PrivateKey(bl.Bytes)
		if err != nil {
			panic(err)
		}
		old := &pem.Block{}
		switch pk := priv.(type) {
		case *rsa.PrivateKey:
			old.Type, old.Bytes = "RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(pk)
		case *ecdsa.PrivateKey:
			old.Type = "EC PRIVATE KEY"
			if old.Bytes, err = x509.MarshalECPrivateKey(pk); err != nil {
				panic(err)
			}
		}
		h.Put(w.file(k, "old", "key"), string(pem.EncodeToMemory(old)))
	}
	h.Put(w.dir+"/www/index.html", "SECRET-CONTENT")
	// certificates that a server with automatic certificates has got earlier
	w.pool["auto"] = x509.NewCertPool()
	for _, k := range keys {
		c, key := pair(k, "good auto")
		w.pool["auto"].AppendCertsFromPEM(c)
		h.Put(h.Core(w.dir)["FileDir"].(string)+"certs/tls.test"+map[string]string{"rsa": "+rsa"}[k], string(key)+string(c))
	}
	return w
}

func (w *world) file(k, kind, ext string) string {
	if kind == "none" {
		return ""
	}
	return w.dir + "/" + k + "/" + kind + "." + ext
}

// portOf is the port of the server with a kind of key; automatic certificates need the standard port.
func portOf(k string) string {
	if k == "auto" {
		return "443"
	}
	return port
}

func (w *world) config(host, port string, tlsc h.M) string {
	core := h.Core(w.dir)
	core["Address"], core["Port"], core["LogOut"], core["TLS"] = host, port, "/dev/null", tlsc
	return h.PutJSON(w.dir+"/"+host+".json", h.M{"Core": core, "Serve": h.M{"ServeDir": w.dir + "/www/", "ServeIndex": "index.html", "Methods": h.M{"/": "GET"}}, "Guard": h.Generous()})
}

func (w *world) start(k, cert, key string) *h.Proc {
	for {
		host := h.Loopback()
		tlsc := h.M{"Enabled": true, "TLSCert": w.file(k, cert, "cert"), "TLSKey": w.file(k, key, "key")}
		if k == "auto" {
			tlsc = h.M{"Enabled": true, "AutoCert": h.M{"Enabled": true, "Certificates": []string{"tls.test", "b.tls.test"}}}
		}
		p := w.ctx.Start(host, w.config(host, portOf(k), tlsc))
		if p.Ready(portOf(k)) || !p.Busy() {
			return p
		}
	}
}

// server is the running server with good files for a kind of key.
func (w *world) server(k string) *h.Proc {
	if w.procs[k] == nil {
		w.procs[k] = w.start(k, "good", "good")
	}
	return w.procs[k]
}

func (w *world) close() {
	for _, p := range w.procs {
		p.Kill()
	}
}

// plain talks without TLS and returns what the server sends.
func plain(p *h.Proc, port, raw string) string {
	c, err := net.DialTimeout("tcp", p.Host+":"+port, 5*time.Second)
	if err != nil {
		return ""
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(10 * time.Second))
	io.WriteString(c, raw)
	c.(*net.TCPConn).CloseWrite()
	b, _ := io.ReadAll(c)
	return string(b)
}

// bad says what is wrong with an answer to a conversation without TLS: only a refusal in plain text or a TLS alert is allowed.
func badPlain(out string) string {
	if strings.Contains(out, "SECRET") {
		return "a server with TLS sends content without TLS"
	}
	if strings.HasPrefix(out, "HTTP/") && !strings.Contains(strings.SplitN(out, "\r\n", 2)[0], " 400 ") {
		return "a server with TLS answers requests without TLS"
	}
	return ""
}

func (w *world) handshake(k string, cfg *tls.Config) (*tls.Conn, error) {
	cfg.RootCAs, cfg.ServerName = w.pool[k], "tls.test"
	d := &net.Dialer{Timeout: 10 * time.Second}
	return tls.DialWithDialer(d, "tcp", w.server(k).Host+":"+portOf(k), cfg)
}

func (w *world) files(c FileCase) h.Outcome {
	for _, k := range keys {
		p := w.start(k, c.Cert, c.Key)
		good := c.Cert == c.Key && (c.Cert == "good" || c.Cert == "other")
		bad, running := "", !p.Ended(0)
		if running && !good {
			// it may listen for a moment before it finds out
			bad = badPlain(plain(p, port, "GET / HTTP/1.1\r\nHost: tls.test\r\nConnection: close\r\n\r\n"))
			running = !p.Ended(5 * time.Second)
		}
		if bad != "" {
		} else if running {
			bad = badPlain(plain(p, port, "GET / HTTP/1.1\r\nHost: tls.test\r\nConnection: close\r\n\r\n"))
			if bad == "" && !good {
				bad = "a server with TLS and unusable certificates keeps running"
			}
		} else if good {
			bad = "a server with good certificates does not start"
		} else if p.Code == 0 {
			bad = "a server that cannot start ends as if nothing were wrong"
		}
		p.Kill()
		if bad != "" {
			return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\n%s key, certificate file %s, key file %s\n%s", bad, k, c.Cert, c.Key, p.Err.String())}
		}
	}
	return h.Outcome{Class: fmt.Sprint("starts: ", c.Cert == c.Key && (c.Cert == "good" || c.Cert == "other")), Sig: fmt.Sprint(c), States: 2, Transitions: 4, Sample: fmt.Sprintf("%+v", c)}
}

// option starts a server with other settings and asks for a page with and without TLS.
func (w *world) option(c OptCase) h.Outcome {
	var p *h.Proc
	for {
		host := h.Loopback()
		core := h.Core(w.dir)
		tlsc := h.M{"Enabled": true, "TLSCert": w.file(c.Key, "good", "cert"), "TLSKey": w.file(c.Key, "good", "key")}
		core["Address"], core["Port"], core["LogOut"], core["TLS"] = host, port, "/dev/null", tlsc
		cfg := h.M{"Core": core, "Serve": h.M{"ServeDir": w.dir + "/www/", "ServeIndex": "index.html", "Methods": h.M{"/": "GET"}}, "Guard": h.Generous()}
		for _, o := range options {
			if o.name == c.Opt {
				o.set(w, c.Key, tlsc, cfg)
			}
		}
		p = w.ctx.Start(host, h.PutJSON(w.dir+"/"+host+".json", cfg))
		if p.Ready(port) || !p.Busy() {
			break
		}
	}
	defer p.Kill()
	bad := ""
	if p.Ended(0) {
		bad = "a server with good certificates does not start"
	} else {
		bad = badPlain(plain(p, port, "GET / HTTP/1.1\r\nHost: tls.test\r\nConnection: close\r\n\r\n"))
	}
	n := 0
	for _, v := range []uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13} {
		for _, name := range []string{"tls.test", "other.test", ""} {
			if bad != "" {
				continue
			}
			n++
			conn, err := tls.DialWithDialer(&net.Dialer{Timeout: 10 * time.Second}, "tcp", p.Host+":"+port, &tls.Config{MinVersion: v, MaxVersion: v, InsecureSkipVerify: true, ServerName: name})
			if (err == nil) != (v >= tls.VersionTLS12) {
				bad = fmt.Sprintf("a %s handshake for %q ends otherwise than it must: %v", tls.VersionName(v), name, err)
			}
			if err != nil {
				continue
			}
			conn.SetDeadline(time.Now().Add(10 * time.Second))
			io.WriteString(conn, "GET / HTTP/1.1\r\nHost: tls.test\r\nConnection: close\r\n\r\n")
			b, _ := io.ReadAll(conn)
			st := conn.ConnectionState()
			conn.Close()
			switch out := string(b); {
			case bad != "":
			case st.PeerCertificates[0].Subject.CommonName != "good "+c.Key:
				bad = "the server shows another certificate than the configured one"
			case !strings.HasPrefix(out, "HTTP/1.1 200") || !strings.Contains(out, "SECRET-CONTENT") || !strings.Contains(out, "Strict-Transport-Security"):
				bad = "a request over TLS is not answered\n" + out
			}
		}
	}
	for _, s := range append(tls.CipherSuites(), tls.InsecureCipherSuites()...) {
		for _, v := range []uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12} {
			if bad != "" {
				continue
			}
			n++
			conn, err := tls.DialWithDialer(&net.Dialer{Timeout: 10 * time.Second}, "tcp", p.Host+":"+port, &tls.Config{MinVersion: v, MaxVersion: v, InsecureSkipVerify: true, ServerName: "tls.test", CipherSuites: []uint16{s.ID}})
			if err == nil {
				conn.Close()
			}
			if must := v == tls.VersionTLS12 && strong[s.ID] == c.Key; must != (err == nil) {
				bad = fmt.Sprintf("a %s handshake that offers %s ends otherwise than it must: %v", tls.VersionName(v), s.Name, err)
			}
		}
	}
	if bad != "" {
		return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\n%+v\n%s", bad, c, p.Err.String())}
	}
	return h.Outcome{Class: "served over TLS only", Sig: fmt.Sprint(c), States: n, Transitions: n + 1, Sample: fmt.Sprintf("%+v", c)}
}

// strong are the suites of TLS 1.2 that a strong server may negotiate, by kind of key.
var strong = map[uint16]string{
	tls.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256: "rsa", tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384: "rsa", tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256: "rsa",
	tls.TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256: "ecdsa", tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384: "ecdsa", tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256: "ecdsa",
}

func (w *world) shake(c ShakeCase) h.Outcome {
	cfg := &tls.Config{MinVersion: c.Version, MaxVersion: c.Version}
	if c.Suite != 0 {
		cfg.CipherSuites = []uint16{c.Suite}
	} else {
		for _, s := range append(tls.CipherSuites(), tls.InsecureCipherSuites()...) {
			cfg.CipherSuites = append(cfg.CipherSuites, s.ID)
		}
	}
	if c.Curve != 0 {
		cfg.CurvePreferences = []tls.CurveID{tls.CurveID(c.Curve)}
	}
	if c.ALPN != "" {
		cfg.NextProtos = strings.Split(c.ALPN, ",")
	}
	// what must work and what must not
	nist := c.Curve == 0 || c.Curve == uint16(tls.CurveP256) || c.Curve == uint16(tls.CurveP384) || c.Curve == uint16(tls.CurveP521)
	must, never := false, c.Version < tls.VersionTLS12
	switch {
	case c.Version == tls.VersionTLS13:
		must = nist
	case c.Version == tls.VersionTLS12 && c.Suite == 0:
		must = nist
	case c.Version == tls.VersionTLS12:
		must, never = nist && strong[c.Suite] == c.Key, strong[c.Suite] != c.Key
		if c.Key == "auto" { // has both kinds of keys, and uses the ECDSA key for clients that know its curve
			must, never = nist && strong[c.Suite] != "" && (strong[c.Suite] == "rsa" || c.Curve == 0 || c.Curve == uint16(tls.CurveP256)), strong[c.Suite] == ""
		}
	}
	conn, err := w.handshake(c.Key, cfg)
	if err != nil {
		if strings.Contains(err.Error(), "refused") {
			return h.Outcome{Class: "down", Bad: "the server is down\n" + w.server(c.Key).Err.String()}
		}
		if must {
			return h.Outcome{Class: "differs", Bad: fmt.Sprintf("a strong handshake fails\n%+v (suite %s): %v", c, tls.CipherSuiteName(c.Suite), err)}
		}
		return h.Outcome{Class: "refused", Sig: fmt.Sprint(c)}
	}
	defer conn.Close()
	st := conn.ConnectionState()
	bad := ""
	switch {
	case never:
		bad = "a weak handshake succeeds"
	case st.Version < tls.VersionTLS12 || st.Version == tls.VersionTLS12 && strong[st.CipherSuite] == "":
		bad = "a weak version or cipher is negotiated although stronger ones are offered"
	case st.PeerCertificates[0].Subject.CommonName != "good "+c.Key:
		bad = "the server shows another certificate than the configured one"
	}
	proto := "HTTP/1.1"
	if bad == "" && st.NegotiatedProtocol != "h2" {
		conn.SetDeadline(time.Now().Add(10 * time.Second))
		io.WriteString(conn, "GET / HTTP/1.1\r\nHost: tls.test\r\nConnection: close\r\n\r\n")
		b, _ := io.ReadAll(conn)
		if out := string(b); !strings.HasPrefix(out, "HTTP/1.1 200") || !strings.Contains(out, "SECRET-CONTENT") || !strings.Contains(out, "Strict-Transport-Security") {
			bad = "a request over TLS is not answered\n" + out
		}
	} else if bad == "" {
		proto = "HTTP/2"
		cfg.MinVersion = c.Version
		cl := &http.Client{Timeout: 10 * time.Second, Transport: &http.Transport{TLSClientConfig: cfg, ForceAttemptHTTP2: true, DisableKeepAlives: true}}
		resp, err := cl.Get("https://" + w.server(c.Key).Host + ":" + portOf(c.Key) + "/")
		if err != nil {
			bad = "a request over HTTP/2 fails\n" + err.Error()
		} else {
			b, _ := io.ReadAll(resp.Body)
			resp.Body.Close()
			if resp.StatusCode != 200 || string(b) != "SECRET-CONTENT" || resp.Header.Get("Strict-Transport-Security") == "" {
				bad = fmt.Sprint("a request over HTTP/2 is not answered\n", resp.StatusCode, resp.Header)
			}
		}
	}
	if bad != "" {
		return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\n%+v: negotiated %s %s", bad, c, tls.VersionName(st.Version), tls.CipherSuiteName(st.CipherSuite))}
	}
	return h.Outcome{Class: fmt.Sprint(tls.VersionName(st.Version), " ", proto), Sig: fmt.Sprint(c), States: 3, Transitions: 2, Sample: fmt.Sprintf("%+v -> %s", c, tls.CipherSuiteName(st.CipherSuite))}
}

// name asks a server with automatic certificates for a certificate of a host name.
func (w *world) name(c NameCase) h.Outcome {
	p := w.server("auto")
	cfg := &tls.Config{MinVersion: c.Version, MaxVersion: c.Version, InsecureSkipVerify: true, ServerName: c.Name}
	if c.ALPN != "" {
		cfg.NextProtos = strings.Split(c.ALPN, ",")
	}
	raw, err := net.DialTimeout("tcp", p.Host+":"+portOf("auto"), 10*time.Second)
	if err != nil {
		return h.Outcome{Class: "down", Bad: "the server is down\n" + p.Err.String()}
	}
	defer raw.Close()
	raw.SetDeadline(time.Now().Add(30 * time.Second))
	conn := tls.Client(raw, cfg)
	err = conn.Handshake()
	has := strings.EqualFold(c.Name, "tls.test") && c.ALPN != "acme-tls/1" && c.Version >= tls.VersionTLS12
	bad := ""
	switch {
	case err == nil && !has:
		bad = "a server with automatic certificates accepts a handshake it has no certificate for"
	case err != nil && has:
		bad = "a server with automatic certificates refuses a host name it has a certificate for\n" + err.Error()
	case err == nil && conn.ConnectionState().PeerCertificates[0].Subject.CommonName != "good auto":
		bad = "a server with automatic certificates shows another certificate"
	case err == nil && conn.ConnectionState().NegotiatedProtocol != strings.Split(c.ALPN, ",")[0] && !strings.Contains(c.ALPN, ","):
		bad = "the protocol is not agreed on"
	}
	if bad != "" {
		return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\n%+v", bad, c)}
	}
	return h.Outcome{Class: fmt.Sprint("accepted: ", err == nil), Sig: fmt.Sprint(c), States: 2, Transitions: 2, Sample: fmt.Sprintf("%+v: %v", c, err)}
}

func (w *world) probe(c ProbeCase) h.Outcome {
	out := plain(w.server(c.Key), portOf(c.Key), c.Raw)
	bad := badPlain(out)
	if bad == "" && w.server(c.Key).Ended(0) {
		bad = "the server ends"
	}
	if bad != "" {
		return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\n%q -> %q", bad, c.Raw, out)}
	}
	return h.Outcome{Class: fmt.Sprint("bytes back: ", len(out) > 0), Sig: c.Key + c.Raw}
}

func main() {
	h.Main("C21", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is a combination of certificate and key files, a handshake or a conversation without TLS; distinct = different cases"
		w := newWorld(ctx)
		shown := []string{"auto"}
		if l, err := net.Listen("tcp", h.Loopback()+":443"); err == nil {
			l.Close()
		} else {
			shown = nil
			ctx.Note("port 443 cannot be used here, so automatic certificates are left out: %v", err)
		}
		defer w.close()
		h.Enumerate(ctx, "files", func(y func(FileCase) bool) {
			for _, a := range kinds {
				for _, b := range kinds {
					if !y(FileCase{a, b}) {
						return
					}
				}
			}
		}, w.files)
		h.Enumerate(ctx, "settings", func(y func(OptCase) bool) {
			for _, k := range keys {
				for _, o := range options {
					if !y(OptCase{k, o.name}) {
						return
					}
				}
			}
		}, w.option)
		h.Enumerate(ctx, "handshakes", func(y func(ShakeCase) bool) {
			suites := []uint16{0}
			for _, s := range append(tls.CipherSuites(), tls.InsecureCipherSuites()...) {
				suites = append(suites, s.ID)
			}
			for _, k := range append(append([]string{}, shown...), keys...) {
				for _, v := range []uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13} {
					for _, s := range suites {
						for _, cv := range []uint16{0, uint16(tls.X25519), uint16(tls.CurveP256), uint16(tls.CurveP384), uint16(tls.CurveP521)} {
							for _, a := range []string{"", "h2", "http/1.1", "h2,http/1.1", "http/1.1,h2", "other,http/1.1"} {
								if v == tls.VersionTLS13 && s != 0 || strings.HasPrefix(a, "h2") && s != 0 && strong[s] == "" && cv != 0 {
									continue
								}
								if !y(ShakeCase{k, v, s, cv, a}) {
									return
								}
							}
						}
					}
				}
			}
		}, w.shake)
		h.Enumerate(ctx, "automatic certificates", func(y func(NameCase) bool) {
			if shown == nil {
				return
			}
			for _, n := range []string{"tls.test", "TLS.TEST", "b.tls.test", "x.tls.test", "x.test", "", "test", "a.b.tls.test", "tls.test.x"} {
				for _, v := range []uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13} {
					for _, a := range []string{"", "h2", "http/1.1", "h2,http/1.1", "acme-tls/1"} {
						if !y(NameCase{n, v, a}) {
							return
						}
					}
				}
			}
		}, w.name)
		h.Enumerate(ctx, "without TLS", func(y func(ProbeCase) bool) {
			for _, k := range append(append([]string{}, shown...), keys...) {
				for _, m := range []string{"GET", "HEAD", "POST", "OPTIONS", "CONNECT", "PRI", "X"} {
					for _, t := range []string{"/", "/index.html", "*", "http://tls.test/", "https://tls.test/"} {
						for _, v := range []string{"HTTP/1.0", "HTTP/1.1", "HTTP/2.0"} {
							for _, hd := range []string{"", "Upgrade: h2c\r\nConnection: Upgrade\r\n", "X-Forwarded-Proto: https\r\n", "Upgrade: TLS/1.2\r\nConnection: Upgrade\r\n"} {
								if !y(ProbeCase{k, m + " " + t + " " + v + "\r\nHost: tls.test\r\n" + hd + "\r\n"}) {
									return
								}
							}
						}
					}
				}
				pri := "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00"
				for i := 0; i <= len(pri); i++ {
					if !y(ProbeCase{k, pri[:i]}) {
						return
					}
				}
				for _, b := range []string{"\x16\x03\x00\x00\x01\x00", "\x16\x03\x01\x00\x00", "\x80\x2e\x01\x00\x02", "\x00", "\r\n\r\nGET / HTTP/1.1\r\nHost: x\r\n\r\n"} {
					if !y(ProbeCase{k, b}) {
						return
					}
				}
			}
		}, w.probe)
		ctx.Bound("%d x %d kinds of certificate and key files; %d other settings and forms of the files; 4 TLS versions x every cipher suite of Go's client x 5 curves x 6 protocol lists against an RSA server, an ECDSA server and one with automatic certificates, and 9 host names asked of the latter; conversations without TLS", len(kinds), len(kinds), len(options))
		ctx.Assume("automatic certificates are those the server has got earlier; getting new ones through ACME is not explored (no network)")
	})
}
