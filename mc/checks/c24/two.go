package main

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"golang.org/x/net/http2"
	"golang.org/x/net/http2/hpack"
	"verif/h"
)

// Conversations over HTTP/2. A connection without a complete request counts as idle there.

const idleLimit, prefaceLimit, twoSlack = 30, 10, 4 // what net/http grants in any case, and the time of a farewell

// conversation is what a client sends for one request, and where its parts end.
func conversation(method, host, path, body string, settings ...http2.Setting) (raw []byte, ends []int) {
	var b, hb bytes.Buffer
	fr := http2.NewFramer(&b, nil)
	b.WriteString(http2.ClientPreface)
	ends = append(ends, b.Len())
	fr.WriteSettings(settings...)
	ends = append(ends, b.Len())
	enc := hpack.NewEncoder(&hb)
	for _, f := range h.Get2(method, host, path) {
		enc.WriteField(hpack.HeaderField{Name: f[0], Value: f[1]})
	}
	fr.WriteHeaders(http2.HeadersFrameParam{StreamID: 1, BlockFragment: hb.Bytes(), EndHeaders: true, EndStream: body == ""})
	ends = append(ends, b.Len())
	if body != "" {
		fr.WriteData(1, true, []byte(body))
	}
	return b.Bytes(), append(ends, b.Len())
}

var twoPost, twoEnds = conversation("POST", "proxy.test", "/echo", body)

// heard is what a client hears until the connection ends, or until the deadline.
type heard struct {
	status  string
	body    []byte
	ended   time.Duration // of the stream, since the beginning
	reset   bool
	closed  time.Duration
	timeout bool
}

func hear(k net.Conn, began time.Time, until time.Time, enough bool) (o heard) {
	k.SetDeadline(until)
	fr := http2.NewFramer(io.Discard, k)
	fr.ReadMetaHeaders = hpack.NewDecoder(4096, nil)
	for {
		f, err := fr.ReadFrame()
		if err != nil {
			ne, ok := err.(net.Error)
			o.timeout, o.closed = ok && ne.Timeout(), time.Since(began)
			return
		}
		switch f := f.(type) {
		case *http2.MetaHeadersFrame:
			o.status = f.PseudoValue("status")
			if f.StreamEnded() {
				o.ended = time.Since(began)
			}
		case *http2.DataFrame:
			o.body = append(o.body, f.Data()...)
			if f.StreamEnded() {
				o.ended = time.Since(began)
			}
		case *http2.RSTStreamFrame:
			o.reset, o.ended = true, time.Since(began)
		}
		if enough && o.ended != 0 {
			return
		}
	}
}

func (w *world) two(c Case, conn net.Conn, read, write int) (bad, class string) {
	k := tls.Client(conn, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}})
	if err := k.Handshake(); err != nil {
		return "handshake: " + err.Error(), ""
	}
	if k.ConnectionState().NegotiatedProtocol != "h2" {
		return "the server does not speak HTTP/2", ""
	}
	began := time.Now()
	secs := func(n int) time.Time { return began.Add(time.Duration(n)*time.Second + slack) }
	still := func(o heard) string {
		if o.timeout {
			return fmt.Sprintf("a stalled HTTP/2 connection is not closed in time\nstill open after %v", o.closed.Round(time.Second))
		}
		if o.status == "200" {
			return "a stalled request is answered as if it were complete"
		}
		return ""
	}
	drip := func(every time.Duration, send func(i int) []byte) {
		go func() {
			for i := 0; ; i++ {
				if _, err := k.Write(send(i)); err != nil {
					return
				}
				time.Sleep(every)
			}
		}()
	}
	timely := func(want string) (string, string) {
		o := hear(k, began, secs(write), true)
		if o.status != "200" || o.reset || string(o.body) != want {
			return fmt.Sprintf("a slow but timely request is not answered\n%s, %d bytes, reset: %v", o.status, len(o.body), o.reset), ""
		}
		return "", "answered"
	}
	switch c.Kind {
	case "two cut":
		k.Write(twoPost[:c.At])
		limit := idleLimit
		if c.At < twoEnds[0] {
			limit = prefaceLimit
		}
		if c.At >= twoEnds[2] { // the body is missing
			o := hear(k, began, secs(read), true)
			if o.ended == 0 {
				return "an HTTP/2 request whose body never ends is not ended in time", ""
			}
			if bad := still(o); bad != "" {
				return bad, ""
			}
			limit += read
		}
		return still(hear(k, began, secs(limit+twoSlack), false)), "closed"
	case "two pause":
		k.Write(twoPost[:c.At])
		time.Sleep(1200 * time.Millisecond)
		k.Write(twoPost[c.At:])
		return timely("echo " + body)
	case "two pings":
		k.Write(twoPost[:twoEnds[1]])
		drip(300*time.Millisecond, func(int) []byte { return append([]byte{0, 0, 8, 6, 0, 0, 0, 0, 0}, "12345678"...) })
		return still(hear(k, began, secs(idleLimit+twoSlack), false)), "closed"
	case "two drip header":
		k.Write(twoPost[:twoEnds[1]])
		x := append(append([]byte{}, twoPost[twoEnds[1]:twoEnds[2]]...), 0)
		x[4] &^= 4 // more is to come
		x = x[:len(x)-1]
		drip(300*time.Millisecond, func(i int) []byte {
			if i == 0 {
				return x
			}
			return append([]byte{0, 0, 5, 9, 0, 0, 0, 0, 1}, 0, 1, 'x', 1, 'y')
		})
		return still(hear(k, began, secs(idleLimit+twoSlack), false)), "closed"
	case "two drip body":
		k.Write(twoPost[:twoEnds[2]])
		drip(300*time.Millisecond, func(i int) []byte { return []byte{0, 0, 1, 0, 0, 0, 0, 0, 1, 'x'} })
		o := hear(k, began, secs(read), true)
		if o.ended == 0 {
			return "an HTTP/2 request whose body never ends is not ended in time", ""
		}
		return still(o), "ended"
	case "two window":
		raw, _ := conversation("GET", "file.test", "/big", "", http2.Setting{ID: http2.SettingInitialWindowSize, Val: uint32(c.At)})
		k.Write(raw)
		o := hear(k, began, secs(write), true)
		if !o.reset {
			return "an HTTP/2 client that takes no more of its answer is not cut off in time", ""
		}
		o = hear(k, began, secs(write+idleLimit+twoSlack), false)
		o.status = ""
		return still(o), "cut off"
	case "two reader":
		// not even the connection is read
		raw, ends := conversation("GET", "file.test", "/big", "", http2.Setting{ID: http2.SettingInitialWindowSize, Val: 1 << 30})
		up := []byte{0, 0, 4, 8, 0, 0, 0, 0, 0, 0x3f, 0, 0, 0}
		k.Write(append(append(append([]byte{}, raw[:ends[1]]...), up...), raw[ends[1]:]...))
		time.Sleep(time.Duration(2*write)*time.Second + slack)
		at := time.Now()
		o := hear(k, at, at.Add(slack), false)
		if o.timeout || len(o.body) >= len(big) {
			return fmt.Sprintf("an HTTP/2 client that does not read is not cut off\n%d bytes, still open: %v", len(o.body), o.timeout), ""
		}
		return "", "cut off"
	case "two slow reader":
		raw, ends := conversation("GET", "file.test", "/big", "", http2.Setting{ID: http2.SettingInitialWindowSize, Val: 1 << 30})
		up := []byte{0, 0, 4, 8, 0, 0, 0, 0, 0, 0x3f, 0, 0, 0}
		k.Write(append(append(append([]byte{}, raw[:ends[1]]...), up...), raw[ends[1]:]...))
		time.Sleep(1200 * time.Millisecond)
		return timely(big)
	case "two upstream":
		raw, _ := conversation("GET", "proxy.test", "/stall", "")
		k.Write(raw)
		lim := limits[c.Limits].header
		if lim == 0 {
			return "", "no limit"
		}
		if o := hear(k, began, secs(lim), true); o.status != "502" {
			return "an upstream that never answers is not given up in time\n" + o.status, ""
		}
		return "", "502"
	case "two crowd":
		for i := 0; i < c.At; i++ {
			d := dial(w.tls(c.Limits))
			defer d.Close()
			x := tls.Client(d, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}})
			if i%4 == 3 {
				raw, _ := conversation("GET", "file.test", "/big", "", http2.Setting{ID: http2.SettingInitialWindowSize, Val: 0})
				x.Write(raw)
			} else {
				x.Write(twoPost[:i%len(twoPost)])
			}
		}
		raw, _ := conversation("GET", "file.test", "/small", "")
		began = time.Now()
		k.Write(raw)
		return timely("small file")
	}
	panic(c.Kind)
}

func isTwo(kind string) bool { return strings.HasPrefix(kind, "two") }
