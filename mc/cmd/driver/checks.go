package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"verif/instr"
)

type check struct {
	Level   string
	Dir     string                   // directory below checks/, default the lower-case id
	Instr   map[string]instr.Options // packages of /repo that run under the controlled scheduler
	Race    bool                     // explore again under the happens-before monitor
	RealBin bool                     // the check also drives the real server binary
	LowPort bool                     // the server listens on a port below 1024
	Syscall bool                     // record file-system system calls
}

var locks = instr.Options{Sync: true, Time: true}
var full = instr.Options{Points: true, Sync: true, Time: true}

var checks = map[string]check{
	"C01": {Level: "model_checking"},
	"C02": {Level: "model_checking"},
	"C04": {Level: "model_checking"},
	"C05": {Level: "model_checking"},
	"C06": {Level: "model_checking", Race: true, Instr: map[string]instr.Options{"guard": full}},
	"C09": {Level: "model_checking", Instr: map[string]instr.Options{"cache": {Time: true}}},
	"C10": {Level: "model_checking", Race: true, Instr: map[string]instr.Options{"cache": full}},
	"C07": {Level: "model_checking"},
	"C08": {Level: "model_checking", Race: true, Instr: map[string]instr.Options{"guard": full, "cache": full}},
	"C12": {Level: "fault_enumeration", Syscall: true},
	"C11": {Level: "model_checking", Race: true, Instr: map[string]instr.Options{"tuna": full}},
	"C13": {Level: "model_checking", Race: true, Instr: map[string]instr.Options{"tuna": full}},
	"C14": {Level: "fault_enumeration"},
	"C15": {Level: "model_checking"},
	"C16": {Level: "model_checking"},
	"C17": {Level: "model_checking"},
	"C18": {Level: "model_checking"},
	"C19": {Level: "model_checking", Race: true, Instr: map[string]instr.Options{"tuna": full, "router": locks, "guard": locks, "cache": locks}},
	"C20": {Level: "model_checking", RealBin: true},
	"C21": {Level: "model_checking", RealBin: true, LowPort: true},
	"C22": {Level: "model_checking", RealBin: true},
	"C23": {Level: "model_checking", Race: true, Instr: map[string]instr.Options{"debug": full, "tuna": full, "router": locks, "guard": locks, "cache": locks}},
	"C25": {Level: "model_checking"},
	"C26": {Level: "model_checking", RealBin: true},
	"C27": {Level: "model_checking"},
	"C24": {Level: "fault_enumeration", RealBin: true},
	"C03": {Level: "model_checking", Race: true, Instr: map[string]instr.Options{"router": full}},
}

func sortedKeys(m map[string]instr.Options) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

var hooked = []string{"openat", "write", "pwrite", "Ftruncate", "Truncate", "Renameat", "unlinkat", "linkat", "Mkdirat", "Fsync", "Fdatasync", "Close"}

// overlaySyscall puts the recorder of syshook/ around the file-system calls of the standard library.
func overlaySyscall(rep map[string]string) error {
	o, err := exec.Command("go", "env", "GOROOT", "GOARCH").Output()
	if err != nil {
		return err
	}
	env := strings.Fields(string(o))
	dir := filepath.Join(env[0], "src", "syscall")
	z := filepath.Join(dir, "zsyscall_linux_"+env[1]+".go")
	b, err := os.ReadFile(z)
	if err != nil {
		return err
	}
	s := string(b)
	for _, f := range hooked {
		n := strings.Replace(s, "\nfunc "+f+"(", "\nfunc verif_"+f+"(", 1)
		if n == s {
			return fmt.Errorf("no %s in %s", f, z)
		}
		s = n
	}
	out := filepath.Join(scratch, "zsyscall.go")
	if err := os.WriteFile(out, []byte(s), 0o644); err != nil {
		return err
	}
	hook := filepath.Join(scratch, "hook.go")
	copyFile(filepath.Join(verif, "mc", "syshook", "hook.go.txt"), hook)
	rep[z], rep[filepath.Join(dir, "zz_verif.go")] = out, hook
	return nil
}

func sortedChecks() []string {
	var k []string
	for s := range checks {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
