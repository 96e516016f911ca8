package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/redmaner/MaguroHTTP/tuna"
	"verif/h"
)

// Session is one life of a server process.
type Session struct {
	Dir    string
	Log    string
	Phases [][]int // requests; every phase ends with a save
	Term   bool    // the save is the one of SIGTERM (one phase only), not the periodic one
	Show   bool    // only show what a client sees
	Cut    Cut
	Count  int   // so many further phases of one request; after each the saved file is read
	Grow   bool  // these requests are for different paths
	Idle   []int // so many further idle periods (days), each followed by a request and a day in which it has to be saved
}

// saved reads stored metrics.
func saved(name string) (c h.Counts, err error) {
	var m struct {
		TotalRequests int
		Paths         map[string]map[string]int
	}
	b, err := os.ReadFile(name)
	if err != nil {
		return c, err
	}
	if err = json.Unmarshal(b, &m); err != nil {
		return c, err
	}
	c.Total, c.Paths = m.TotalRequests, map[string]int{}
	for code, l := range m.Paths {
		for k, n := range l {
			c.Paths[code+" "+k] = n
		}
	}
	return c, nil
}

// step is the i-th request of a long session and the entry it is counted under.
func step(i int, grow bool) (target, key string) {
	if !grow {
		return targets[0], keys[0]
	}
	target = "/g" + strings.Repeat("y", i%97) + fmt.Sprint(i)
	return target, "404 h1" + target
}

// Cut is what goes wrong in a session.
type Cut struct {
	At    int    // index of the operation before which the process ends; number of operations = at the end; -1 never
	Torn  int    // so many bytes of that write are made first
	Power string // "" the process is killed; "lost", "half": the machine stops and unsynced data is lost (in half)
	Fault int    // index of the operation that fails; -1 none
	Errno int
}

var targets = []string{"/a.txt", "/none", "/%ff", "/%fe%ff", "/%E2%80%A8%22%3C%5C"}
var keys = []string{"200 h1/a.txt", "404 h1/none", "404 h1/\uFFFD", "404 h1/\uFFFD", "404 h1/\u2028\"<\\"}

type inode struct {
	fd     int
	synced int64
	dirty  bool
}

type recorder struct {
	s      Session
	n      int
	fds    map[int]string
	inodes map[uint64]*inode
	out    int
	busy   bool
}

func (r *recorder) log(f string, a ...interface{}) {
	b := []byte(fmt.Sprintf(f, a...) + "\n")
	syscall.RawSyscall(syscall.SYS_WRITE, uintptr(r.out), bufp(b), uintptr(len(b)))
}

func (r *recorder) watched(p string) bool {
	return strings.HasPrefix(p, r.s.Dir+"/data/") || strings.HasPrefix(p, r.s.Dir+"/files/")
}

func (r *recorder) ino(fd int) *inode {
	var st syscall.Stat_t
	if syscall.Fstat(fd, &st) != nil {
		return nil
	}
	return r.inodes[st.Ino]
}

func (r *recorder) crash() {
	if r.s.Cut.Power != "" {
		for _, i := range r.inodes {
			if i.dirty {
				var st syscall.Stat_t
				syscall.Fstat(i.fd, &st)
				l := i.synced
				if l > st.Size {
					l = st.Size
				}
				if r.s.Cut.Power == "half" {
					l = (l + st.Size) / 2
				}
				syscall.RawSyscall(syscall.SYS_FTRUNCATE, uintptr(i.fd), uintptr(l), 0)
			}
		}
	}
	r.log("crash")
	syscall.RawSyscall(syscall.SYS_EXIT_GROUP, 77, 0, 0)
}

func (r *recorder) before(op string, fd int, path, path2 string, flags int, p []byte) syscall.Errno {
	if r.busy {
		return 0
	}
	switch {
	case fd >= 0:
		q, ok := r.fds[fd]
		if !ok {
			return 0
		}
		path = q
		if op == "close" {
			delete(r.fds, fd)
		}
	case op == "open":
		if !r.watched(path) || flags&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) == 0 && !strings.HasPrefix(path, r.s.Dir+"/data/") {
			return 0
		}
	default:
		if !r.watched(path) && !r.watched(path2) {
			return 0
		}
	}
	k := r.n
	r.n++
	r.log("op %d %s %s %d %d", k, op, strings.TrimPrefix(path, r.s.Dir), len(p), flags)
	if k == r.s.Cut.At {
		if r.s.Cut.Torn > 0 {
			r.mark(fd)
			if op == "pwrite" {
				syscall.RawSyscall6(syscall.SYS_PWRITE64, uintptr(fd), bufp(p), uintptr(r.s.Cut.Torn), uintptr(flags), 0, 0)
			} else {
				syscall.RawSyscall(syscall.SYS_WRITE, uintptr(fd), bufp(p), uintptr(r.s.Cut.Torn))
			}
		}
		r.crash()
	}
	if k == r.s.Cut.Fault {
		return syscall.Errno(r.s.Cut.Errno)
	}
	switch op {
	case "write", "pwrite":
		r.mark(fd)
	case "ftruncate":
		r.mark(fd)
		if i := r.ino(fd); i != nil && i.synced > int64(flags) {
			i.synced = int64(flags)
		}
	}
	return 0
}

func (r *recorder) mark(fd int) {
	if i := r.ino(fd); i != nil {
		i.dirty = true
	}
}

func (r *recorder) after(op string, fd int, path string, flags, n int) {
	if r.busy {
		return
	}
	switch op {
	case "open":
		if !r.watched(path) {
			return
		}
		wr := flags&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_TRUNC) != 0
		if !wr {
			return
		}
		r.fds[fd] = path
		var st syscall.Stat_t
		if syscall.Fstat(fd, &st) != nil {
			return
		}
		i := r.inodes[st.Ino]
		if i == nil {
			d, _, _ := syscall.RawSyscall(syscall.SYS_DUP, uintptr(fd), 0, 0)
			i = &inode{fd: int(d), synced: st.Size}
			r.inodes[st.Ino] = i
		}
		if st.Size < i.synced {
			i.synced = st.Size
			i.dirty = true
		}
	case "fsync":
		if i := r.ino(fd); i != nil {
			var st syscall.Stat_t
			syscall.Fstat(fd, &st)
			i.synced, i.dirty = st.Size, false
		}
	}
}

func (s Session) serve() {
	b, _ := json.Marshal(s)
	_ = b
	out, err := syscall.Open(s.Log, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_APPEND|syscall.O_CLOEXEC, 0o644)
	if err != nil {
		panic(err)
	}
	r := &recorder{s: s, fds: map[int]string{}, inodes: map[uint64]*inode{}, out: out}
	hook(r.before, r.after)
	srv := tuna.NewInstanceFromConfig(s.Dir + "/main.json")
	get := func(t, auth string) *h.Rec {
		w := h.NewRec()
		var hd []string
		if auth != "" {
			hd = []string{"Authorization", auth}
		}
		srv.Router.ServeHTTP(w, h.Req("GET", t, "h1", "10.0.0.1:1", hd...))
		return w
	}
	r.log("started")
	if s.Show {
		r.busy = true
		w := get("/metrics", h.MetricsAuth)
		c, bad := h.ParseMetrics(string(w.Body))
		if bad != "" {
			r.log("page %d %q", w.Status(), bad)
		}
		j, _ := json.Marshal(c)
		r.log("show %s", j)
		w = get("/none", "")
		r.log("error %d %v", w.Status(), strings.Contains(string(w.Body), "Error 404") && strings.Contains(string(w.Body), "<!doctype html>") && strings.Contains(string(w.Body), "</html>"))
		os.Exit(0)
	}
	if s.Term {
		go srv.Serve()
		time.Sleep(300 * time.Millisecond)
	}
	for i, ph := range s.Phases {
		r.log("phase %d", i)
		for _, q := range ph {
			get(targets[q], "")
		}
		r.log("saving %d", i)
		if s.Term {
			syscall.Kill(os.Getpid(), syscall.SIGTERM)
			time.Sleep(25 * time.Second)
			r.log("not stopped")
			os.Exit(3)
		}
		time.Sleep(20*time.Minute + time.Second)
		r.log("saved %d", i)
	}
	if s.Count > 0 {
		want, err := saved(s.Dir + "/data/metrics.json")
		if err != nil {
			panic(err)
		}
		for i := 0; i < s.Count; i++ {
			t, k := step(i, s.Grow)
			get(t, "")
			time.Sleep(20*time.Minute + time.Second)
			want.Total++
			want.Paths[k]++
			r.busy = true
			got, err := saved(s.Dir + "/data/metrics.json")
			r.busy = false
			if err != nil || got.String() != want.String() {
				r.log("missing after %d: %v total %d, expected %d (%s)", i, err, got.Total, want.Total, t)
				break
			}
		}
	}
	if len(s.Idle) > 0 {
		want := h.Counts{Paths: map[string]int{}}
		if c, err := saved(s.Dir + "/data/metrics.json"); err == nil {
			want = c
		}
		for i, days := range s.Idle {
			time.Sleep(time.Duration(days) * 24 * time.Hour)
			get(targets[0], "")
			want.Total++
			want.Paths[keys[0]]++
			time.Sleep(24*time.Hour + time.Second)
			r.busy = true
			got, err := saved(s.Dir + "/data/metrics.json")
			r.busy = false
			if err != nil || got.String() != want.String() {
				r.log("missing after %d: nothing saved within a day after %d idle days: %v total %d, expected %d", i, days, err, got.Total, want.Total)
				break
			}
		}
	}
	if s.Cut.At >= r.n {
		r.crash()
	}
	r.log("end")
	os.Exit(0)
}

// main of a session process
func sessionMain(arg string) {
	var s Session
	b, err := os.ReadFile(arg)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &s); err != nil {
		panic(err)
	}
	if s.Term || s.Show {
		s.serve()
	}
	os.Args = os.Args[:1]
	testing.Main(func(_, _ string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "session", F: func(t *testing.T) {
		synctest.Test(t, func(*testing.T) { s.serve() })
	}}}, nil, nil)
}

// certs writes a self-signed certificate.
func certs(dir string) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), DNSNames: []string{"h1"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour)}
	c, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	kb, _ := x509.MarshalECPrivateKey(k)
	h.Put(filepath.Join(dir, "c.pem"), string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c})))
	h.Put(filepath.Join(dir, "k.pem"), string(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})))
}
