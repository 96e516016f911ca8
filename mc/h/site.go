package h

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync/atomic"

	"github.com/redmaner/MaguroHTTP/tuna"
)

// M is a JSON object.
type M = map[string]interface{}

var siteN int64

// Dir makes a fresh directory below the scratch directory.
func (c *Ctx) Dir(name string) string {
	d := filepath.Join(c.Scratch, fmt.Sprintf("%s-%d", name, atomic.AddInt64(&siteN, 1)))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

// Put writes a file, making its directory.
func Put(path, content string) string {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte(content), 0o644); err != nil {
		panic(err)
	}
	return path
}

// PutJSON writes a JSON file.
func PutJSON(path string, v interface{}) string {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	return Put(path, string(b))
}

// Core returns a core configuration whose files all stay below dir.
func Core(dir string) M {
	return M{"Address": "127.0.0.1", "Port": "8080", "LogLevel": 0, "LogOut": filepath.Join(dir, "server.log"), "FileDir": dir + "/"}
}

// Generous is a guard section that never limits.
func Generous() M { return M{"Rate": 600000000, "RateBurst": 1000000} }

// Server loads a server from a configuration.
func Server(dir string, cfg M) *tuna.Server {
	return tuna.NewInstanceFromConfig(PutJSON(filepath.Join(dir, "main.json"), cfg))
}

// ParseRequest parses raw bytes the way the HTTP server does.
func ParseRequest(raw, remote string) (*http.Request, error) {
	r, err := http.ReadRequest(bufio.NewReader(strings.NewReader(raw)))
	if err != nil {
		return nil, err
	}
	r.RemoteAddr = remote
	return r, nil
}

// Serve runs one request through a handler in this goroutine. A panic is reported, not propagated.
func Serve(hd http.Handler, r *http.Request) (w *httptest.ResponseRecorder, panicked string) {
	w = httptest.NewRecorder()
	defer func() {
		if p := recover(); p != nil {
			panicked = fmt.Sprintf("%v\n%s", p, debug.Stack())
		}
	}()
	hd.ServeHTTP(w, r)
	return w, ""
}

// Get builds a plain request.
func Req(method, target, host, remote string, hdr ...string) *http.Request {
	raw := method + " " + target + " HTTP/1.1\r\nHost: " + host + "\r\n"
	for i := 0; i+1 < len(hdr); i += 2 {
		raw += hdr[i] + ": " + hdr[i+1] + "\r\n"
	}
	r, err := ParseRequest(raw+"\r\n", remote)
	if err != nil {
		panic(err)
	}
	return r
}

// Remove deletes a directory made by Dir.
func (c *Ctx) Remove(dir string) {
	if strings.HasPrefix(dir, c.Scratch+"/") {
		os.RemoveAll(dir)
	}
}

// Quiet is a log that goes nowhere.
var Quiet = log.New(io.Discard, "", 0)
