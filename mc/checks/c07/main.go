// C07: rate limiting, one client after another. Every history of requests and pauses up to a depth on the
// unmodified limiter under a fake clock, compared with one exact token bucket per client.
package main

import (
	"crypto/tls"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/redmaner/MaguroHTTP/guard"
	"verif/h"
)

// Case is a limiter and a history; operations are indices into ops.
type Case struct {
	PerMin float64
	Burst  int
	OnIP   bool
	Set    string
	Ops    []int
}

type op struct {
	ip, ua string
	port   string
	wait   time.Duration
	flood  int
	many   int // so many times
	vary   int // other parts of the request
}

var long = strings.Repeat("Mozilla/5.0 (X11; Linux x86_64) ", 40)

// parts of a request that do not make another client
var varied = []func(r *http.Request){
	nil,
	func(r *http.Request) { r.Method, r.Body, r.ContentLength = "POST", http.NoBody, 7 },
	func(r *http.Request) { r.URL = &url.URL{Path: "/" + long, RawQuery: "a=b"} },
	func(r *http.Request) { r.Host = "other.test:8080" },
	func(r *http.Request) {
		r.Header["X-Forwarded-For"], r.Header["X-Real-Ip"], r.Header["Forwarded"], r.Header["Cf-Connecting-Ip"], r.Header["True-Client-Ip"] = []string{"10.9.9.9"}, []string{"10.9.9.9"}, []string{"for=10.9.9.9"}, []string{"10.9.9.9"}, []string{"10.9.9.9"}
	},
	func(r *http.Request) {
		r.Header["Authorization"], r.Header["Cookie"], r.Header["Referer"] = []string{"Basic dTpw"}, []string{"a=b"}, []string{"http://a.test/"}
	},
	func(r *http.Request) {
		r.Header["Accept"], r.Header["Accept-Language"], r.Header["Content-Type"], r.Header["Range"], r.Header["X-User-Agent"] = []string{"*/*"}, []string{"en"}, []string{"x/y"}, []string{"bytes=0-0"}, []string{"z"}
	},
	func(r *http.Request) { r.Proto, r.ProtoMajor, r.ProtoMinor, r.Close = "HTTP/1.0", 1, 0, true },
	func(r *http.Request) {
		r.Proto, r.ProtoMajor, r.ProtoMinor, r.TLS = "HTTP/2.0", 2, 0, &tls.ConnectionState{}
	},
	func(r *http.Request) { r.Method = "HEAD" },
	func(r *http.Request) { r.Method = "OPTIONS" },
	func(r *http.Request) { r.Method, r.RequestURI, r.URL = "OPTIONS", "*", &url.URL{Path: "*"} },
	func(r *http.Request) { r.Method, r.URL = "CONNECT", &url.URL{Host: "h:443"} },
	func(r *http.Request) { r.Method = "TRACE" },
	func(r *http.Request) { r.Method = "PROPFIND" },
	func(r *http.Request) { r.URL = &url.URL{Path: "/favicon.ico"} },
	func(r *http.Request) { r.URL = &url.URL{Path: "/robots.txt"} },
	func(r *http.Request) { r.URL = &url.URL{Path: "/style.css"} },
	func(r *http.Request) { r.URL = &url.URL{Path: "/.well-known/acme-challenge/x"} },
	func(r *http.Request) { r.URL = &url.URL{Path: "/"} },
	func(r *http.Request) {
		r.Header["If-Modified-Since"], r.Header["If-None-Match"] = []string{"Thu, 01 Jan 2099 00:00:00 GMT"}, []string{"*"}
	},
	func(r *http.Request) {
		r.Header["Connection"], r.Header["Upgrade"], r.Header["Expect"] = []string{"Upgrade"}, []string{"websocket"}, []string{"100-continue"}
	},
}

func (o op) String() string {
	switch {
	case o.flood > 0:
		return fmt.Sprintf("%d requests of other clients", o.flood)
	case o.wait > 0:
		return "+" + o.wait.String()
	}
	if o.many > 0 {
		return fmt.Sprintf("%d x request(%s)", o.many, o.ip)
	}
	if len(o.ua) > 40 {
		return fmt.Sprintf("request(%s:%s,agent %q of %d bytes)", o.ip, o.port, o.ua[len(o.ua)-10:], len(o.ua))
	}
	return fmt.Sprintf("request(%s:%s,%q,%d)", o.ip, o.port, o.ua, o.vary)
}

var sets = map[string][]op{
	"clients": {
		{ip: "10.0.0.1", ua: "x", port: "1"}, {ip: "10.0.0.1", ua: "y", port: "2"}, {ip: "10.0.0.2", ua: "x", port: "1"}, {ip: "10.0.0.1", ua: "x", port: "9"},
		{wait: 250 * time.Millisecond}, {wait: time.Second}, {wait: 15 * time.Minute}, {wait: 16 * time.Minute},
	},
	"times": {
		{ip: "10.0.0.1", ua: "x", port: "1"}, {ip: "10.0.0.2", ua: "x", port: "1"},
		{wait: 250 * time.Millisecond}, {wait: 500 * time.Millisecond}, {wait: 2 * time.Second},
	},
	"names": {
		{ip: "10.0.0.1", ua: "1x", port: "1"}, {ip: "10.0.0.11", ua: "x", port: "1"}, {ip: "10.0.0.1", ua: "", port: "1"}, {ip: "10.0.0.11", ua: "", port: "1"}, {ip: "10.0.0.1", ua: "1", port: "1"}, {ip: "::1", ua: "x", port: "1"}, {ip: "::1", ua: "", port: "1"}, {ip: "::11", ua: "", port: "5"},
	},
	"agents": {
		{ip: "10.0.0.1", ua: "Agent/1", port: "1"}, {ip: "10.0.0.1", ua: "agent/1", port: "1"}, {ip: "10.0.0.1", ua: "Agent/1 ", port: "1"}, {ip: "10.0.0.1", ua: "Agent", port: "1"}, {ip: "10.0.0.1", ua: "agent", port: "1"}, {ip: "10.0.0.1", ua: "Agent/10", port: "1"},
		{ip: "10.0.0.1", ua: long + "1", port: "1"}, {ip: "10.0.0.1", ua: long + "2", port: "1"}, {ip: "10.0.0.1", ua: "Ag\xffent", port: "1"}, {ip: "10.0.0.1", ua: "Ag\xfeent", port: "1"}, {ip: "fe80::1%eth0", ua: "x", port: "1"}, {ip: "fe80::1%eth1", ua: "x", port: "1"}, {ip: "fe80::1", ua: "x", port: "1"},
	},
	"requests": {
		{ip: "10.0.0.1", ua: "x", port: "1"}, {ip: "10.0.0.1", ua: "x", port: "1", vary: 1}, {ip: "10.0.0.1", ua: "x", port: "2", vary: 2}, {ip: "10.0.0.1", ua: "x", port: "1", vary: 3}, {ip: "10.0.0.1", ua: "x", port: "1", vary: 4}, {ip: "10.0.0.1", ua: "x", port: "1", vary: 5}, {ip: "10.0.0.1", ua: "x", port: "1", vary: 6}, {ip: "10.0.0.1", ua: "x", port: "1", vary: 7}, {ip: "10.0.0.1", ua: "x", port: "1", vary: 8}, {ip: "10.0.0.2", ua: "x", port: "1"},
	},
	"methods": nil, // see init
	"local": {
		{ip: "127.0.0.1", ua: "x", port: "1"}, {ip: "127.0.0.1", ua: "x", port: "2", vary: 4}, {ip: "::1", ua: "x", port: "1"}, {ip: "::1", ua: "x", port: "1", vary: 4}, {ip: "192.168.0.1", ua: "x", port: "1", vary: 4}, {ip: "8.8.8.8", ua: "x", port: "1", vary: 4}, {ip: "10.9.9.9", ua: "x", port: "1"}, {ip: "0.0.0.0", ua: "x", port: "1"}, {ip: "127.0.0.2", ua: "x", port: "1"},
	},
	"networks": {
		{ip: "2001:db8:1:2:3:4:5:6", ua: "x", port: "1"}, {ip: "2001:db8:1:2:3:4:5:7", ua: "x", port: "1"}, {ip: "2001:db8:1:2:9:4:5:6", ua: "x", port: "1"}, {ip: "2001:db8:1:3:3:4:5:6", ua: "x", port: "1"}, {ip: "2001:db8::1", ua: "x", port: "1"}, {ip: "2001:db8::2", ua: "x", port: "1"}, {ip: "10.0.0.1", ua: "x", port: "1"}, {ip: "10.0.0.200", ua: "x", port: "1"}, {ip: "10.0.1.1", ua: "x", port: "1"}, {ip: "10.1.0.1", ua: "x", port: "1"},
	},
	"slow": {
		{ip: "10.0.0.1", ua: "x", port: "1"}, {ip: "10.0.0.2", ua: "x", port: "1"}, {wait: 128 * time.Second}, {wait: 256 * time.Second}, {wait: 384 * time.Second},
	},
	"fast": {
		{ip: "10.0.0.1", ua: "x", port: "1"}, {ip: "10.0.0.2", ua: "x", port: "1"}, {wait: time.Second / 128}, {wait: time.Second / 64}, {wait: time.Second / 32},
	},
	"large": {
		{ip: "10.0.0.1", ua: "x", port: "1"}, {ip: "10.0.0.1", ua: "x", port: "1", many: 63}, {ip: "10.0.0.1", ua: "x", port: "1", many: 1000}, {ip: "10.0.0.2", ua: "x", port: "1", many: 99}, {wait: 10 * time.Second}, {wait: 100 * time.Second},
	},
	"flood": {
		{ip: "10.0.0.1", ua: "x", port: "1"}, {ip: "10.0.0.2", ua: "x", port: "1"}, {flood: 5}, {flood: 300}, {wait: 7 * time.Minute},
	},
}

func init() {
	for v := range varied {
		if v == 0 || v > 8 {
			sets["methods"] = append(sets["methods"], op{ip: "10.0.0.1", ua: "x", port: "1", vary: v})
		}
	}
	sets["methods"] = append(sets["methods"], op{ip: "10.0.0.2", ua: "x", port: "1"})
}

type bucket struct {
	tokens float64
	at     time.Time // last refill
	seen   time.Time
	ops    int
}

func run(bubble func(func())) func(Case) h.Outcome {
	return func(c Case) (out h.Outcome) {
		bubble(func() { out = one(c) })
		return
	}
}

func one(c Case) h.Outcome {
	l := guard.NewLimiter(c.PerMin, c.Burst, c.OnIP)
	code, calls := 0, 0
	l.ErrorHandler = func(w http.ResponseWriter, r *http.Request, n int) { code = code*1000 + n }
	hd := l.LimitHTTP(func(w http.ResponseWriter, r *http.Request) { calls++ })
	bs := map[string]*bucket{}
	rate := c.PerMin / 60
	ok, no, n, flooded := 0, 0, 0, 0
	var names []string
	for _, i := range c.Ops {
		names = append(names, sets[c.Set][i].String())
	}
	for step, i := range c.Ops {
		o := sets[c.Set][i]
		if o.wait > 0 {
			time.Sleep(o.wait)
			continue
		}
		reqs := []op{o}
		for k := 1; k < o.many; k++ {
			reqs = append(reqs, o)
		}
		if o.flood > 0 {
			reqs = nil
			for k := 0; k < o.flood; k++ {
				flooded++
				reqs = append(reqs, op{ip: fmt.Sprintf("172.16.%d.%d", flooded>>8&255, flooded&255), ua: "f", port: "1"})
			}
		}
		for _, q := range reqs {
			n++
			key := q.ip
			if !c.OnIP {
				key += "\x00" + q.ua
			}
			now := time.Now()
			b := bs[key]
			if b == nil {
				b = &bucket{tokens: float64(c.Burst), at: now}
				bs[key] = b
			} else {
				b.tokens += now.Sub(b.at).Seconds() * rate
				if b.tokens > float64(c.Burst) {
					b.tokens = float64(c.Burst)
				}
				b.at = now
				if now.Sub(b.seen) > 15*time.Minute && b.tokens < float64(c.Burst) {
					// a client idle for more than 15 minutes may be forgotten: start again, both answers are right
					delete(bs, key)
					return h.Outcome{Class: "forgotten client, not specified", States: n}
				}
			}
			b.seen = now
			want := b.tokens >= 1
			if want {
				b.tokens--
			}
			remote := q.ip + ":" + q.port
			if strings.Contains(q.ip, ":") {
				remote = "[" + q.ip + "]:" + q.port
			}
			code, calls = 0, 0
			r := &http.Request{Method: "GET", URL: &url.URL{Path: "/" + fmt.Sprint(step)}, RemoteAddr: remote, Header: http.Header{}}
			if q.ua != "" {
				r.Header["User-Agent"] = []string{q.ua}
			}
			if f := varied[q.vary]; f != nil {
				f(r)
			}
			hd(h.NewRec(), r)
			got := calls == 1 && code == 0
			d := fmt.Sprintf("\nrate %v/min burst %d filterOnIP %v: step %d of %v (client %q): handler ran %d times, error %d; bucket %v before the request", c.PerMin, c.Burst, c.OnIP, step+1, names, key, calls, code, b.tokens)
			if want && !got {
				return h.Outcome{Class: "differs", Bad: "a client within its rate is refused" + d}
			}
			if !want && !(calls == 0 && code == 429) {
				return h.Outcome{Class: "differs", Bad: "a client over its rate is not answered 429" + d}
			}
			if want {
				ok++
			} else {
				no++
			}
		}
	}
	return h.Outcome{Class: c.Set, Sig: fmt.Sprint(c), States: n, Transitions: len(c.Ops), Sample: fmt.Sprintf("rate %v/min burst %d onIP %v: %v: %d served, %d refused", c.PerMin, c.Burst, c.OnIP, names, ok, no)}
}

func main() {
	h.MainBubbled("C07", 8, func(ctx *h.Ctx, bubble func(func())) {
		deep := ctx.Thorough() || ctx.Replay != nil
		ctx.Res.Rule = "a case is a limiter and a history of requests and pauses, every answer compared with an exact token bucket per client; distinct = different histories that are specified to the end"
		gen := func(set string, depth int, rates []float64, bursts []int) func(func(Case) bool) {
			return func(y func(Case) bool) {
				n := len(sets[set])
				for _, r := range rates {
					for _, b := range bursts {
						for _, ip := range []bool{false, true} {
							if ip && set == "times" && !deep {
								continue
							}
							var rec func(pre []int) bool
							rec = func(pre []int) bool {
								if len(pre) == depth {
									return y(Case{r, b, ip, set, append([]int{}, pre...)})
								}
								for i := 0; i < n; i++ {
									if len(pre) == 0 && (sets[set][i].wait > 0 || sets[set][i].flood > 0) {
										continue
									}
									if !rec(append(pre, i)) {
										return false
									}
								}
								return true
							}
							if !rec(nil) {
								return
							}
						}
					}
				}
			}
		}
		r := run(bubble)
		d := 0
		if deep {
			d = 1
		}
		h.Enumerate(ctx, "clients", gen("clients", 5+d, []float64{60, 0.001}, []int{1, 2}), r)
		h.Enumerate(ctx, "times", gen("times", 7+d, []float64{30, 60, 120}, []int{1, 2, 3}), r)
		h.Enumerate(ctx, "names", gen("names", 4+d, []float64{0.001}, []int{1, 2}), r)
		h.Enumerate(ctx, "agents", gen("agents", 3+d, []float64{0.001}, []int{1}), r)
		h.Enumerate(ctx, "requests", gen("requests", 4+d, []float64{0.001}, []int{1, 2}), r)
		h.Enumerate(ctx, "methods", gen("methods", 3+d, []float64{0.001}, []int{1, 2}), r)
		h.Enumerate(ctx, "local", gen("local", 3+d, []float64{0.001}, []int{1, 2}), r)
		h.Enumerate(ctx, "networks", gen("networks", 3+d, []float64{0.001}, []int{1, 2}), r)
		h.Enumerate(ctx, "flood", gen("flood", 5+d, []float64{0.001, 60}, []int{1, 2}), r)
		h.Enumerate(ctx, "slow", gen("slow", 6+d, []float64{60. / 512, 60. * 3 / 1024}, []int{1, 2}), r)
		h.Enumerate(ctx, "fast", gen("fast", 5+d, []float64{60 * 64, 60 * 96}, []int{1, 2}), r)
		h.Enumerate(ctx, "large", gen("large", 3+d, []float64{60, 0.001}, []int{20, 64, 255, 256, 257, 1000, 70000}), r)
		h.Enumerate(ctx, "no burst", gen("times", 3, []float64{0, 60}, []int{0}), r)
		ctx.Bound("histories of 5 over 8 operations, 7 over 5, 4 over 8, 3 over 13, 4 over 10, 3 over 15, 3 over 9, 3 over 10, 5 over 5, 6 over 5, 5 over 5, 3 over 6 (thorough: one more), rates 0.001 to 5760 per minute, bursts 0 to 3 and 20 to 70000, both client notions (histories of 7: thorough only)")
		ctx.Assume("time is testing/synctest's fake clock around unmodified code", "rates and pauses are dyadic, so that the bucket arithmetic is exact", "a client that was idle for more than 15 minutes, or is followed by 1000 requests of others, may be forgotten")
	})
}
