package main

import (
	"syscall"
	"unsafe"
)

func hook(before func(string, int, string, string, int, []byte) syscall.Errno, after func(string, int, string, int, int)) {
	syscall.VerifHook.Before = before
	syscall.VerifHook.After = after
}

func bufp(b []byte) uintptr {
	if len(b) == 0 {
		return 0
	}
	return uintptr(unsafe.Pointer(&b[0]))
}
