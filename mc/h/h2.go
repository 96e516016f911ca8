package h

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/net/http2"
	"golang.org/x/net/http2/hpack"
)

// With2 lets a front speak HTTP/2 to clients that begin with it.
func (f *Front) With2() *Front {
	p := new(http.Protocols)
	p.SetHTTP1(true)
	p.SetUnencryptedHTTP2(true)
	f.Srv.Protocols = p
	return f
}

// NewFront2 starts a front that speaks HTTP/2 as well.
func NewFront2(hd http.Handler) *Front {
	f := newFront(hd).With2()
	go f.Srv.Serve(f)
	return f
}

// H2 is a client's HTTP/2 connection. It sends any header fields, well-formed or not.
type H2 struct {
	Conn  net.Conn
	fr    *http2.Framer
	enc   *hpack.Encoder
	buf   bytes.Buffer
	next  uint32
	ready bool

	mu      sync.Mutex
	cond    *sync.Cond
	win     int64 // what the server takes of the connection and of a stream
	initial int64
	stream  int64
	over    bool // the request is answered
}

// NewH2 begins HTTP/2 on a connection.
func NewH2(conn net.Conn, limit time.Duration) (*H2, error) {
	conn.SetDeadline(time.Now().Add(limit))
	c := &H2{Conn: conn, next: 1, win: 65535, initial: 65535}
	c.cond = sync.NewCond(&c.mu)
	c.enc = hpack.NewEncoder(&c.buf)
	c.fr = http2.NewFramer(conn, conn)
	c.fr.ReadMetaHeaders = hpack.NewDecoder(4096, nil)
	c.fr.MaxHeaderListSize = 1 << 22
	done := make(chan error, 1)
	go func() {
		_, err := io.WriteString(conn, http2.ClientPreface)
		if err == nil {
			err = c.fr.WriteSettings(http2.Setting{ID: http2.SettingInitialWindowSize, Val: 1 << 30})
		}
		done <- err
	}()
	f, err := c.fr.ReadFrame()
	if err != nil {
		return nil, err
	}
	sf, ok := f.(*http2.SettingsFrame)
	if !ok {
		return nil, fmt.Errorf("the server begins with %v", f)
	}
	if v, ok := sf.Value(http2.SettingInitialWindowSize); ok {
		c.initial = int64(v)
	}
	if err := <-done; err != nil {
		return nil, err
	}
	return c, nil
}

// Do sends a request of the given header fields (pseudo fields first) and reads its answer. In a refusal of the
// stream, Err is set and Status is 0.
func (c *H2) Do(fields [][2]string, body []byte) Answer {
	id := c.next
	c.next += 2
	c.buf.Reset()
	for _, f := range fields {
		c.enc.WriteField(hpack.HeaderField{Name: f[0], Value: f[1]})
	}
	block := append([]byte{}, c.buf.Bytes()...)
	c.mu.Lock()
	c.over, c.stream = false, c.initial
	c.mu.Unlock()
	werr := make(chan error, 1)
	acks := make(chan func() error, 1000)
	if !c.ready {
		c.ready = true
		acks <- c.fr.WriteSettingsAck
	}
	go func() {
		for first := true; first || len(block) > 0; first = false {
			n := min(len(block), 16384)
			var err error
			if first {
				err = c.fr.WriteHeaders(http2.HeadersFrameParam{StreamID: id, BlockFragment: block[:n], EndStream: body == nil, EndHeaders: n == len(block)})
			} else {
				err = c.fr.WriteContinuation(id, n == len(block), block[:n])
			}
			block = block[n:]
			if err != nil {
				werr <- err
				return
			}
		}
		for data := body; body != nil; {
			n := min(len(data), 16384)
			c.mu.Lock()
			for n > 0 && !c.over && (c.win <= 0 || c.stream <= 0) {
				c.cond.Wait()
			}
			n = int(min(int64(n), max(c.win, 0), max(c.stream, 0)))
			c.win -= int64(n)
			c.stream -= int64(n)
			over := c.over
			c.mu.Unlock()
			if over {
				break
			}
			if err := c.fr.WriteData(id, n == len(data), data[:n]); err != nil {
				break
			}
			if data = data[n:]; len(data) == 0 {
				break
			}
		}
		for f := range acks {
			if f() != nil {
				break
			}
		}
		werr <- nil
	}()
	defer func() {
		c.mu.Lock()
		c.over = true
		c.mu.Unlock()
		c.cond.Broadcast()
		close(acks)
		<-werr
	}()
	a := Answer{Header: http.Header{}}
	for {
		f, err := c.fr.ReadFrame()
		if err != nil {
			a.Err = err
			c.Conn.Close()
			return a
		}
		switch f := f.(type) {
		case *http2.SettingsFrame:
			if !f.IsAck() {
				acks <- c.fr.WriteSettingsAck
			}
		case *http2.WindowUpdateFrame:
			c.mu.Lock()
			switch f.StreamID {
			case 0:
				c.win += int64(f.Increment)
			case id:
				c.stream += int64(f.Increment)
			}
			c.mu.Unlock()
			c.cond.Broadcast()
		case *http2.PingFrame:
			if data := f.Data; !f.IsAck() {
				acks <- func() error { return c.fr.WritePing(true, data) }
			}
		case *http2.GoAwayFrame:
			if f.ErrCode != http2.ErrCodeNo {
				a.Err = fmt.Errorf("the server ends the connection: %v", f.ErrCode)
				c.Conn.Close()
				return a
			}
		case *http2.RSTStreamFrame:
			if f.StreamID == id {
				if f.ErrCode == http2.ErrCodeNo && a.Status != 0 {
					return a
				}
				a.Err = fmt.Errorf("the stream is reset: %v", f.ErrCode)
				return a
			}
		case *http2.MetaHeadersFrame:
			if f.StreamID != id {
				a.Err = fmt.Errorf("an answer to another request")
				return a
			}
			for _, x := range f.Fields {
				if x.Name == ":status" {
					a.Status, _ = strconv.Atoi(x.Value)
				} else {
					a.Header.Add(x.Name, x.Value)
				}
			}
			if a.Status >= 100 && a.Status < 200 {
				a.Status, a.Header = 0, http.Header{}
				continue
			}
			if f.StreamEnded() {
				return a
			}
		case *http2.DataFrame:
			if f.StreamID == id {
				a.Body = append(a.Body, f.Data()...)
				if n := uint32(len(f.Data())); n > 0 {
					acks <- func() error { return c.fr.WriteWindowUpdate(0, n) }
				}
				if f.StreamEnded() {
					return a
				}
			}
		}
	}
}

// Get2 are the fields of a request.
func Get2(method, authority, path string, more ...string) [][2]string {
	out := [][2]string{{":method", method}, {":scheme", "https"}, {":authority", authority}, {":path", path}}
	for i := 0; i+1 < len(more); i += 2 {
		out = append(out, [2]string{strings.ToLower(more[i]), more[i+1]})
	}
	return out
}
