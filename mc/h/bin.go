package h

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Buf is a buffer that a process writes to while it is being read.
type Buf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

// Write implements io.Writer.
func (b *Buf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *Buf) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}

// Proc is a running server binary.
type Proc struct {
	Cmd      *exec.Cmd
	Host     string // its address
	Out, Err Buf
	Done     chan struct{} // closed when it has ended
	Code     int           // exit status once Done (negative: signal)
}

var addrN int64

// Loopback returns a loopback address no other process of the check uses.
func Loopback() string {
	n := atomic.AddInt64(&addrN, 1)
	return fmt.Sprintf("127.%d.%d.%d", 1+(os.Getpid()>>8)%250, os.Getpid()&255, 1+n%250)
}

// Start runs the real server binary with a configuration file.
func (c *Ctx) Start(host string, args ...string) *Proc {
	p := &Proc{Host: host, Done: make(chan struct{}), Cmd: exec.Command(filepath.Join(c.Bin, "magurohttp"), args...)}
	p.Cmd.Dir, p.Cmd.Env = c.Scratch, []string{"PATH=/usr/bin:/bin", "HOME=" + c.Scratch, "GOTRACEBACK=all"}
	p.Cmd.Stdout, p.Cmd.Stderr = &p.Out, &p.Err
	p.Cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.Cmd.Start(); err != nil {
		panic(err)
	}
	go func() {
		p.Cmd.Wait()
		p.Code = p.Cmd.ProcessState.ExitCode()
		close(p.Done)
	}()
	return p
}

// Ended reports whether the process ends within d.
func (p *Proc) Ended(d time.Duration) bool {
	select {
	case <-p.Done:
		return true
	default:
	}
	select {
	case <-p.Done:
		return true
	case <-time.After(d):
		return false
	}
}

// Ready waits until the server accepts connections; false if it ends (or does not listen) first.
func (p *Proc) Ready(port string) bool {
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
		if c, err := net.DialTimeout("tcp", p.Host+":"+port, time.Second); err == nil {
			c.Close()
			return true
		}
		if p.Ended(5 * time.Millisecond) {
			return false
		}
	}
	return false
}

// Busy reports whether the process failed because its port was taken.
func (p *Proc) Busy() bool { return strings.Contains(p.Err.String(), "address already in use") }

// Kill ends the process.
func (p *Proc) Kill() {
	p.Cmd.Process.Kill()
	<-p.Done
}
