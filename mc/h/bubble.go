package h

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"testing"
	"testing/synctest"
)

// MainBubbled is Main for checks that run unmodified code under testing/synctest's fake clock.
func MainBubbled(prop string, shards int, f func(c *Ctx, bubble func(func()))) {
	args = append([]string{}, os.Args...)
	os.Args = os.Args[:1]
	testing.Main(func(_, _ string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "bubble", F: func(t *testing.T) {
		Main(prop, shards, func(c *Ctx) {
			f(c, func(g func()) {
				var caught interface{}
				func() {
					defer func() {
						if x := recover(); x != nil {
							if caught = x; strings.Contains(fmt.Sprint(x), "blocked goroutines remain") {
								b := make([]byte, 1<<16)
								caught = fmt.Sprintf("%v\n%s", x, b[:runtime.Stack(b, true)])
							}
						}
					}()
					synctest.Test(t, func(*testing.T) {
						defer func() { caught = recover() }()
						g()
					})
				}()
				if caught != nil {
					panic(caught)
				}
			})
		})
		os.Exit(0)
	}}}, nil, nil)
}
