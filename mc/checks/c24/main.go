// C24: stalled clients. The real server binary, with a connection stalled at every byte of a conversation.
package main

import (
	"bufio"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"

	"verif/h"
)

// Case is one connection and what it does.
type Case struct {
	Limits int // index of limits
	Kind   string
	At     int // byte at which it stalls
}

// limits in seconds; the header limit 0 means the read limit applies.
var limits = []struct{ header, read, write int }{{2, 13, 5}, {0, 3, 5}}

const port = "8080"
const slack = 8 * time.Second

var get = "GET /small HTTP/1.1\r\nHost: file.test\r\nUser-Agent: x\r\n\r\n"
var post = "POST /echo HTTP/1.1\r\nHost: proxy.test\r\nContent-Length: 12\r\n\r\n"
var chunked = "POST /echo HTTP/1.1\r\nHost: proxy.test\r\nTransfer-Encoding: chunked\r\n\r\n"

const body, chunkedBody = "0123456789ab", "4\r\n0123\r\n8\r\n456789ab\r\n0\r\n\r\n"

var big = strings.Repeat("0123456789abcde\n", 1<<20)

type server struct {
	p      *h.Proc // file and proxy as virtual hosts
	secure *h.Proc // the same with TLS
	proxy  *h.Proc // the proxy alone
	hello  []byte
}

type world struct {
	ctx *h.Ctx
	dir string
	up  string
	s   map[int]*server
}

func newWorld(ctx *h.Ctx) *world {
	w := &world{ctx: ctx, dir: ctx.Dir("w"), s: map[int]*server{}}
	l, err := net.Listen("tcp", h.Loopback()+":0")
	if err != nil {
		panic(err)
	}
	go http.Serve(l, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/stall" {
			<-r.Context().Done()
			return
		}
		b, _ := io.ReadAll(r.Body)
		fmt.Fprintf(rw, "echo %s", b)
	}))
	w.up = "http://" + l.Addr().String()
	h.Put(w.dir+"/www/small", "small file")
	h.Put(w.dir+"/www/big", big)
	h.PutJSON(w.dir+"/file.json", h.M{"Serve": h.M{"ServeDir": w.dir + "/www/", "ServeIndex": "small", "Methods": h.M{"/": "GET"}}, "Guard": h.Generous()})
	h.PutJSON(w.dir+"/proxy.json", w.proxy())
	return w
}

func (w *world) proxy() h.M {
	return h.M{"Proxy": h.M{"Enabled": true, "Methods": []string{"GET", "POST"}, "Rules": h.M{"proxy.test": w.up}}, "Guard": h.Generous()}
}

func (w *world) start(n int, kind string) *h.Proc {
	for {
		host := h.Loopback()
		core := h.Core(w.dir)
		core["Address"], core["Port"], core["LogOut"] = host, port, "/dev/null"
		core["ReadTimeout"], core["ReadHeaderTimeout"], core["WriteTimeout"] = limits[n].read, limits[n].header, limits[n].write
		cfg := h.M{"Core": core}
		if kind == "proxy" {
			for k, v := range w.proxy() {
				cfg[k] = v
			}
		} else {
			core["VirtualHosting"], core["VirtualHosts"] = true, h.M{"file.test": w.dir + "/file.json", "proxy.test": w.dir + "/proxy.json"}
		}
		if kind == "tls" {
			core["TLS"] = h.Cert(w.dir)
		}
		p := w.ctx.Start(host, h.PutJSON(w.dir+"/"+host+".json", cfg))
		if p.Ready(port) || !p.Busy() {
			return p
		}
	}
}

func (w *world) get(n int) *server {
	if w.s[n] == nil {
		w.s[n] = &server{p: w.start(n, "")}
	}
	return w.s[n]
}

func (w *world) tls(n int) *h.Proc {
	s := w.get(n)
	if s.secure == nil {
		s.secure = w.start(n, "tls")
	}
	return s.secure
}

func (w *world) alone(n int) *h.Proc {
	s := w.get(n)
	if s.proxy == nil {
		s.proxy = w.start(n, "proxy")
	}
	return s.proxy
}

func (w *world) close() {
	for _, s := range w.s {
		s.p.Kill()
		if s.secure != nil {
			s.secure.Kill()
		}
		if s.proxy != nil {
			s.proxy.Kill()
		}
	}
}

func dial(p *h.Proc) net.Conn {
	c, err := net.DialTimeout("tcp", p.Host+":"+port, 15*time.Second)
	if err != nil {
		panic("the server does not accept a connection: " + err.Error())
	}
	c.SetDeadline(time.Now().Add(40 * time.Second))
	return c
}

// alive asks for a file on a connection of its own.
func alive(p *h.Proc) string {
	c := dial(p)
	defer c.Close()
	io.WriteString(c, get)
	if a := h.ReadAnswer(bufio.NewReader(c), "GET"); a.Err != nil || string(a.Body) != "small file" {
		return fmt.Sprintf("another client is not answered while one stalls\n%+v", a)
	}
	return ""
}

// closed waits until the server closes the connection, at most limit and slack later.
func closed(c net.Conn, limit int, began time.Time) (got string, bad string) {
	end := began.Add(time.Duration(limit)*time.Second + slack)
	c.SetReadDeadline(end)
	b, err := io.ReadAll(c)
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		return string(b), fmt.Sprintf("a stalled connection is not closed in time\nlimit %d s, still open after %v", limit, time.Since(began).Round(time.Second))
	}
	if strings.Contains(string(b), " 200 ") {
		return string(b), "a stalled request is answered as if it were complete"
	}
	return string(b), ""
}

func (w *world) headerLimit(n int) int {
	if limits[n].header == 0 {
		return limits[n].read
	}
	return limits[n].header
}

func (w *world) hello(n int) []byte {
	s := w.get(n)
	if s.hello == nil {
		a, b := net.Pipe()
		go tls.Client(a, &tls.Config{InsecureSkipVerify: true}).Handshake()
		buf := make([]byte, 8192)
		k, _ := b.Read(buf)
		s.hello = buf[:k]
		a.Close()
		b.Close()
	}
	return s.hello
}

func (w *world) run(c Case) h.Outcome {
	lim := limits[c.Limits]
	p := w.get(c.Limits).p
	if strings.HasPrefix(c.Kind, "tls") || isTwo(c.Kind) {
		p = w.tls(c.Limits)
	}
	if strings.HasSuffix(c.Kind, "alone") {
		p = w.alone(c.Limits)
	}
	bad, class := w.do(c, p, lim.read, lim.write)
	if bad != "" {
		return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\n%+v, limits %+v", bad, c, lim)}
	}
	return h.Outcome{Class: class, Sig: fmt.Sprint(c), States: 3, Transitions: 3, Sample: fmt.Sprintf("%+v: %s", c, class)}
}

func (w *world) do(c Case, p *h.Proc, read, write int) (bad, class string) {
	conn := dial(p)
	defer conn.Close()
	if isTwo(c.Kind) {
		conn.SetDeadline(time.Now().Add(80 * time.Second))
		return w.two(c, conn, read, write)
	}
	began := time.Now()
	hl := w.headerLimit(c.Limits)
	stall := func(limit int) string {
		if p == w.get(c.Limits).p {
			if bad := alive(p); bad != "" {
				return bad
			}
		}
		_, bad := closed(conn, limit, began)
		return bad
	}
	answer := func(want string) string {
		a := h.ReadAnswer(bufio.NewReader(conn), "GET")
		if a.Err != nil || a.Status != 200 || string(a.Body) != want {
			return fmt.Sprintf("a slow but timely request is not answered\n%d %v %d bytes", a.Status, a.Err, len(a.Body))
		}
		return ""
	}
	switch c.Kind {
	case "header":
		io.WriteString(conn, get[:c.At])
		return stall(hl), "closed"
	case "body", "body alone":
		io.WriteString(conn, post+body[:c.At])
		return stall(read), "closed"
	case "chunked body":
		io.WriteString(conn, chunked+chunkedBody[:c.At])
		return stall(read), "closed"
	case "drip":
		// a byte every 300 ms does not extend the limit
		go func() {
			for i := 0; ; i++ {
				x := get[:len(get)-2] + "X: " + strings.Repeat("y", 1000)
				if _, err := io.WriteString(conn, x[i:i+1]); err != nil {
					return
				}
				time.Sleep(300 * time.Millisecond)
			}
		}()
		return stall(hl), "closed"
	case "drip body":
		io.WriteString(conn, strings.Replace(post, "12", "1000", 1))
		go func() {
			for {
				if _, err := io.WriteString(conn, "x"); err != nil {
					return
				}
				time.Sleep(300 * time.Millisecond)
			}
		}()
		return stall(read), "closed"
	case "next":
		io.WriteString(conn, get)
		br := bufio.NewReader(conn)
		if a := h.ReadAnswer(br, "GET"); a.Err != nil || string(a.Body) != "small file" {
			return fmt.Sprintf("a request is not answered\n%+v", a), ""
		}
		began = time.Now()
		io.WriteString(conn, get[:c.At])
		return stall(hl), "closed"
	case "idle":
		io.WriteString(conn, get)
		br := bufio.NewReader(conn)
		if a := h.ReadAnswer(br, "GET"); a.Err != nil || string(a.Body) != "small file" {
			return fmt.Sprintf("a request is not answered\n%+v", a), ""
		}
		_, bad := closed(conn, 30, time.Now())
		return bad, "closed"
	case "pause":
		io.WriteString(conn, get[:c.At])
		time.Sleep(800 * time.Millisecond)
		io.WriteString(conn, get[c.At:])
		return answer("small file"), "answered"
	case "pause body":
		io.WriteString(conn, post+body[:c.At])
		time.Sleep(1200 * time.Millisecond)
		io.WriteString(conn, body[c.At:])
		return answer("echo " + body), "answered"
	case "upstream", "upstream alone":
		io.WriteString(conn, strings.Replace(strings.Replace(get, "/small", "/stall", 1), "file.test", "proxy.test", 1))
		if bad := alive(w.get(c.Limits).p); bad != "" {
			return bad, ""
		}
		// an upstream that never answers: the client gets 502 once the header limit is over
		lim := limits[c.Limits].header
		if lim == 0 {
			return "", "no limit"
		}
		conn.SetReadDeadline(began.Add(time.Duration(lim)*time.Second + slack))
		if a := h.ReadAnswer(bufio.NewReader(conn), "GET"); a.Err != nil || a.Status != 502 {
			return fmt.Sprintf("an upstream that never answers is not given up in time\n%d %v", a.Status, a.Err), ""
		}
		return "", "502"
	case "reader":
		// a client that does not read is cut off by the write limit
		io.WriteString(conn, strings.Replace(get, "/small", "/big", 1))
		if bad := alive(p); bad != "" {
			return bad, ""
		}
		time.Sleep(time.Duration(write)*time.Second + slack)
		b, _ := io.ReadAll(conn)
		if len(b) >= len(big) {
			return "a client that does not read is served without limit", ""
		}
		return "", "cut off"
	case "slow reader":
		io.WriteString(conn, strings.Replace(get, "/small", "/big", 1))
		time.Sleep(1200 * time.Millisecond)
		return answer(big), "answered"
	case "tls hello":
		hello := w.hello(c.Limits)
		conn.Write(hello[:min(c.At, len(hello)-1)])
		return stall(min(hl, read, write)), "closed"
	case "tls header":
		k := tls.Client(conn, &tls.Config{InsecureSkipVerify: true})
		if err := k.Handshake(); err != nil {
			return "handshake: " + err.Error(), ""
		}
		began = time.Now()
		io.WriteString(k, get[:c.At])
		return stall(hl), "closed"
	case "crowd":
		var cs []net.Conn
		for i := 0; i < c.At; i++ {
			k := dial(p)
			defer k.Close()
			cs = append(cs, k)
			switch i % 3 {
			case 0:
				io.WriteString(k, get[:i%len(get)])
			case 1:
				io.WriteString(k, post+body[:i%len(body)])
			case 2:
				io.WriteString(k, strings.Replace(get, "/small", "/big", 1))
			}
		}
		for i := 0; i < 20; i++ {
			if bad := alive(p); bad != "" {
				return bad, ""
			}
		}
		return "", "others answered"
	}
	panic(c.Kind)
}

func main() {
	h.Main("C24", 250, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is a connection that stalls or slows down at a byte of its conversation; distinct = different cases"
		w := newWorld(ctx)
		defer w.close()
		n := len(limits)
		h.Enumerate(ctx, "stalls", func(y func(Case) bool) {
			for l := 0; l < n; l++ {
				for i := len(twoPost) - 1; i >= 0; i-- {
					at := false
					for _, e := range append([]int{0, len(twoPost) - 1}, twoEnds...) {
						at = at || i == e || i == e+5
					}
					if (l == 0 || at || ctx.Thorough()) && !y(Case{l, "two cut", i}) {
						return
					}
				}
				for _, k := range []Case{{l, "two window", 0}, {l, "two window", 1000}, {l, "two window", 1 << 30}, {l, "two pings", 0}, {l, "two drip header", 0}, {l, "two drip body", 0}, {l, "two reader", 0}, {l, "two slow reader", 0}, {l, "two upstream", 0}, {l, "two crowd", 50}} {
					if !y(k) {
						return
					}
				}
				for i := range twoPost {
					if !y(Case{l, "two pause", i}) {
						return
					}
				}
			}
			for l := 0; l < n; l++ {
				// the longest cases first
				for i := 0; i < len(body); i++ {
					if !y(Case{l, "body", i}) {
						return
					}
				}
				for i := 0; i < len(chunkedBody); i++ {
					if !y(Case{l, "chunked body", i}) {
						return
					}
				}
				for _, k := range []Case{{l, "drip body", 0}, {l, "reader", 0}, {l, "slow reader", 0}, {l, "drip", 0}, {l, "upstream", 0}, {l, "upstream alone", 0}, {l, "body alone", 5}, {l, "crowd", 60}, {l, "crowd", 400}} {
					if !y(k) {
						return
					}
				}
				if l == 0 && !y(Case{l, "idle", 0}) {
					return
				}
				for i := 0; i < len(get); i++ {
					if !y(Case{l, "header", i}) || !y(Case{l, "pause", i}) || i >= 4 && !y(Case{l, "next", i}) {
						return
					}
					if i%4 == 0 && !y(Case{l, "tls header", i}) {
						return
					}
				}
				for i := 0; i < len(body); i++ {
					if !y(Case{l, "pause body", i}) {
						return
					}
				}
				for _, i := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 43, 44, 60, 100, 150, 200, 10000} {
					if !y(Case{l, "tls hello", i}) {
						return
					}
				}
			}
		}, w.run)
		ctx.Bound("a connection stalled at every byte of a request line, headers, body and chunked body, of a second request and of a TLS handshake, paused at every byte, dripping, or not reading; up to 400 stalled connections at once; limits of %+v s; the same over HTTP/2", limits[:n])
		ctx.Assume(fmt.Sprintf("a connection counts as closed in time if it ends at most %v after its limit", slack), "over HTTP/2 a connection without a complete request counts as idle, which net/http ends after 30 s")
	})
}
