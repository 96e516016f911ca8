// Command driver runs one check: it instruments what the check needs from /repo's working tree, builds the
// harness against /repo, runs it as an unprivileged user in a scratch directory, confirms violations by
// replay, and writes the evidence.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/instr"
	"verif/res"
)

const repo = "/repo"

var verif string

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	cleanup()
	os.Exit(2)
}

var scratch string

func cleanup() {
	if scratch != "" && os.Getenv("VERIF_KEEP") == "" {
		os.RemoveAll(scratch)
	}
}

func copyFile(src, dst string) {
	b, err := os.ReadFile(src)
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(dst, b, 0o644); err != nil {
		die("%v", err)
	}
}

func main() {
	if len(os.Args) < 2 {
		die("usage: check ID [-replay FILE] [-tier quick|thorough]")
	}
	id := os.Args[1]
	verif, _ = filepath.Abs(os.Getenv("VERIF_DIR"))
	tier := os.Getenv("VERIF_TIER")
	replay := ""
	for i := 2; i+1 < len(os.Args); i += 2 {
		switch os.Args[i] {
		case "-replay":
			replay, _ = filepath.Abs(os.Args[i+1])
		case "-tier":
			tier = os.Args[i+1]
		}
	}
	if tier != "thorough" {
		tier = "quick"
	}
	if id == "setup" {
		// warm the build cache: every harness once, in the variants the checks use
		rc := 0
		for _, c := range sortedChecks() {
			cmd := exec.Command("go", "build", "-mod=mod", "-modfile", setupMod(), "-o", "/dev/null", "./checks/"+strings.ToLower(c))
			cmd.Dir = filepath.Join(verif, "mc")
			if o, err := cmd.CombinedOutput(); err != nil {
				if _, ok := checks[c]; ok && !strings.Contains(string(o), "VerifHook") {
					fmt.Printf("%s: %s\n", c, o)
					rc = 1
				}
			}
		}
		cleanup()
		os.Exit(rc)
	}
	ck, ok := checks[id]
	if !ok {
		die("no check %s", id)
	}
	start := time.Now()
	var err error
	scratch, err = os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		die("%v", err)
	}
	os.Chmod(scratch, 0o755)
	defer cleanup()

	build := func(out, race string, pk map[string]instr.Options, dir string) (string, error) {
		replaceMap := map[string]string{}
		base := 0
		pos := map[int]string{}
		for _, p := range sortedKeys(pk) {
			rep, nb, err := instr.Dir(filepath.Join(repo, p), filepath.Join(scratch, "instr"+race, p), pk[p], base, pos)
			if err != nil {
				return "", err
			}
			base = nb
			for k, v := range rep {
				replaceMap[k] = v
			}
		}
		if ck.Syscall {
			if err := overlaySyscall(replaceMap); err != nil {
				return "", err
			}
		}
		ov := filepath.Join(scratch, "overlay"+race+".json")
		b, _ := json.Marshal(map[string]interface{}{"Replace": replaceMap})
		os.WriteFile(ov, b, 0o644)
		mod := filepath.Join(scratch, "mod"+race+".mod")
		copyFile(filepath.Join(verif, "mc", "go.mod"), mod)
		copyFile(filepath.Join(repo, "go.sum"), filepath.Join(scratch, "mod"+race+".sum"))
		args := []string{"build", "-mod=mod", "-modfile", mod, "-overlay", ov, "-o", out}
		if race != "" {
			args = append(args, "-race", "-gcflags=verif/vsched=-race=false")
		}
		cmd := exec.Command("go", append(args, "./checks/"+dir)...)
		cmd.Dir = filepath.Join(verif, "mc")
		o, err := cmd.CombinedOutput()
		return string(o), err
	}
	bin := filepath.Join(scratch, "bin")
	os.Mkdir(bin, 0o755)
	harness := filepath.Join(bin, "harness")
	dir := strings.ToLower(id)
	if ck.Dir != "" {
		dir = ck.Dir
	}
	inconclusive := ""
	if o, err := build(harness, "", ck.Instr, dir); err != nil {
		cmd := exec.Command("go", "build", "./...")
		cmd.Dir = repo
		if ro, rerr := cmd.CombinedOutput(); rerr != nil {
			die("/repo does not build:\n%s", ro)
		}
		inconclusive = "the harness does not build against this tree (an exported API it drives has changed, or the instrumentation failed):\n" + o
	}
	if ck.Race && inconclusive == "" {
		if o, err := build(harness+"-race", "race", ck.Instr, dir); err != nil {
			inconclusive = "the race build of the harness failed:\n" + o
		}
	}
	if ck.RealBin && inconclusive == "" {
		cmd := exec.Command("go", "build", "-o", filepath.Join(bin, "magurohttp"), ".")
		cmd.Dir = repo
		if o, err := cmd.CombinedOutput(); err != nil {
			die("/repo does not build:\n%s", o)
		}
	}
	work := filepath.Join(scratch, "work")
	os.Mkdir(work, 0o777)
	os.Chown(work, 65534, 65534)

	limit := 700 * time.Second
	if tier == "thorough" {
		limit = 3000 * time.Second
	}
	runWith := func(exe string, extra ...string) (*res.Result, string, error) {
		d := filepath.Join(work, fmt.Sprintf("r%d", time.Now().UnixNano()))
		os.Mkdir(d, 0o777)
		os.Chown(d, 65534, 65534)
		out := filepath.Join(d, "out.json")
		args := append([]string{"-tier", tier, "-scratch", d, "-bin", bin, "-out", out}, extra...)
		var eb bytes.Buffer
		mk := func(cred, port bool) *exec.Cmd {
			cmd := exec.Command(exe, args...)
			cmd.Dir = d
			cmd.Env = append(os.Environ(), "HOME="+d, "TMPDIR="+d, "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(d, "race"), "VERIF_RACELOG="+filepath.Join(d, "race"), "HTTP_PROXY=", "http_proxy=", "HTTPS_PROXY=", "https_proxy=")
			cmd.Stdout, cmd.Stderr = &eb, &eb
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			if cred && os.Getuid() == 0 {
				cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534}
				if port {
					cmd.SysProcAttr.AmbientCaps = []uintptr{10} // CAP_NET_BIND_SERVICE
				}
			}
			return cmd
		}
		cmd := mk(true, ck.LowPort)
		err := cmd.Start()
		if err != nil && ck.LowPort {
			cmd = mk(true, false)
			err = cmd.Start()
		}
		if err != nil {
			cmd = mk(false, false)
			err = cmd.Start()
		}
		if err != nil {
			return nil, "", err
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case err = <-done:
		case <-time.After(limit):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
			err = fmt.Errorf("time limit")
		}
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		o := eb.String()
		if len(o) > 8000 {
			o = o[:4000] + "\n...\n" + o[len(o)-4000:]
		}
		b, rerr := os.ReadFile(out)
		if rerr != nil {
			if err == nil {
				err = rerr
			}
			return nil, o, err
		}
		r := &res.Result{}
		if e := json.Unmarshal(b, r); e != nil {
			return nil, o, e
		}
		return r, o, nil
	}

	// the happens-before monitor is a second build of the same harness; its groups start with races/
	run := func(extra ...string) (*res.Result, string, error) {
		exe := harness
		if len(extra) == 2 && extra[0] == "-replay" {
			if b, err := os.ReadFile(extra[1]); err == nil && bytes.Contains(b, []byte(`"races/`)) {
				exe += "-race"
			}
		}
		return runWith(exe, extra...)
	}

	if replay != "" {
		if inconclusive != "" {
			die("%s", inconclusive)
		}
		rp := filepath.Join(work, "replay.json")
		copyFile(replay, rp)
		os.Chmod(rp, 0o644)
		how := []string{"-replay", rp}
		var rv res.Violation
		if b, err := os.ReadFile(rp); err == nil && json.Unmarshal(b, &rv) == nil && rv.History {
			how = again(rv, rp)
		}
		r, o, err := run(how...)
		fmt.Print(o)
		if r == nil {
			fmt.Printf("the replay ended the process: %v\n", err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
			cleanup()
			os.Exit(1)
		}
		for _, v := range r.Violations {
			fmt.Printf("%s\n%s\n", v.Key, v.Detail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		}
		cleanup()
		if len(r.Violations) > 0 {
			os.Exit(1)
		}
		fmt.Println("the case does not violate the property")
		return
	}

	var result *res.Result
	if inconclusive == "" {
		r, o, err := run()
		if r == nil {
			if err != nil && (err.Error() == "time limit" || strings.Contains(err.Error(), "signal: killed")) {
				inconclusive = "the harness did not finish: " + err.Error()
			} else if strings.Contains(o, "vsched: ") || strings.Contains(o, "stuck: a controlled thread") {
				inconclusive = "the scheduler could not control this tree: " + o
			} else {
				r = &res.Result{Violations: []res.Violation{{Key: "process terminated", Detail: fmt.Sprintf("%v\n%s", err, o), Group: "process", NoReplay: true}}}
			}
		}
		result = r
		if ck.Race && inconclusive == "" {
			r2, o2, err2 := runWith(harness + "-race")
			if r2 == nil {
				result.Notes = append(result.Notes, fmt.Sprintf("the race build gave no result: %v %s", err2, o2))
				result.Exhaustive = false
			} else {
				res.Merge(result, r2)
			}
		}
		if o != "" && os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Println(o)
		}
	}
	if inconclusive != "" {
		fmt.Printf("INCONCLUSIVE: %s\n", inconclusive)
		result = &res.Result{Notes: []string{inconclusive}}
	}

	// confirm by replay: a violation that does not come back is an artefact of the harness
	var confirmed []res.Violation
	histories := 0
	for i, v := range result.Violations {
		if v.NoReplay || len(v.Case) == 0 {
			if v.Group == "process" {
				// the whole run ended abnormally: it has to do so again
				r2, o2, err2 := run()
				if r2 != nil && !hasGroup(r2, "process") {
					result.Notes = append(result.Notes, "not confirmed: "+v.Key+": "+v.Detail)
					continue
				}
				if err2 != nil && (err2.Error() == "time limit" || strings.Contains(err2.Error(), "signal: killed")) {
					result.Notes = append(result.Notes, "not confirmed: "+v.Key+": "+o2)
					continue
				}
			}
			confirmed = append(confirmed, v)
			continue
		}
		rp := filepath.Join(work, fmt.Sprintf("confirm%d.json", i))
		b, _ := json.Marshal(v)
		os.WriteFile(rp, b, 0o644)
		good, tries, need := 0, 3, 2
		if strings.HasPrefix(v.Group, "races/") {
			// the monitor reports no race that is not there, but it forgets some accesses
			tries, need = 8, 1
		}
		for k := 0; k < tries && good < need; k++ {
			r, _, err := run("-replay", rp)
			if r == nil && err != nil && err.Error() != "time limit" && !strings.Contains(err.Error(), "signal: killed") {
				good++
			}
			if r != nil && len(r.Violations) > 0 {
				good++
			}
		}
		if good < need && !strings.HasPrefix(v.Group, "races/") && histories < 2 {
			// state that outlives a case: the case fails again, in the same way, after the cases before it
			histories++
			for k := 0; k < 2; k++ {
				r, _, _ := run(again(v, rp)...)
				same := false
				if r != nil {
					for _, w := range r.Violations {
						same = same || w.Key == v.Key && bytes.Equal(w.Case, v.Case)
					}
				}
				if !same {
					break
				}
				if k == 1 {
					v.History, good = true, need
				}
			}
		}
		if good >= need {
			confirmed = append(confirmed, v)
		} else {
			result.Notes = append(result.Notes, fmt.Sprintf("not confirmed (%d of %d replays): %s: %s", good, tries, v.Key, v.Detail))
			result.Exhaustive = false
		}
	}

	known := loadKnown(id)
	exit := 0
	n := 0
	for _, v := range confirmed {
		if what, ok := known[v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
			continue
		}
		os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
		n++
		rp := filepath.Join(verif, "replays", fmt.Sprintf("%s-%d.json", id, n))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(rp, b, 0o644)
		fmt.Printf("%s\n  %s\n", v.Key, strings.ReplaceAll(v.Detail, "\n", "\n  "))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		exit = 1
	}
	writeEvidence(id, tier, ck, result, n, time.Since(start))
	for _, nt := range result.Notes {
		if len(nt) > 700 {
			nt = nt[:700] + "..."
		}
		fmt.Println("note:", nt)
	}
	fmt.Printf("%s %s: %d evaluations, %d states, %d transitions, %d distinct, exhaustive=%v, %.1fs\n", id, tier, result.Evaluations, result.States, result.Transitions, result.Distinct, result.Exhaustive, time.Since(start).Seconds())
	cleanup()
	os.Exit(exit)
}

// again are the arguments that run the process which found v once more, up to v.
func again(v res.Violation, file string) []string {
	return []string{"-shard", fmt.Sprint(v.Shard), "-shards", fmt.Sprint(v.Shards), "-history", file}
}

func hasGroup(r *res.Result, g string) bool {
	for _, v := range r.Violations {
		if v.Group == g {
			return true
		}
	}
	return false
}

// loadKnown reads known_findings.jsonl: {"property","key","what"} per line; lines starting with "fixed:" or
// "#" are for the reader.
func loadKnown(id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(verif, "known_findings.jsonl"))
	if err != nil {
		return out
	}
	defer f.Close()
	b, _ := io.ReadAll(f)
	for _, l := range strings.Split(string(b), "\n") {
		var k struct{ Property, Key, What string }
		if !strings.HasPrefix(l, "{") || json.Unmarshal([]byte(l), &k) != nil {
			continue
		}
		if k.Property == id {
			out[k.Key] = k.What
		}
	}
	return out
}

func writeEvidence(id, tier string, ck check, r *res.Result, viol int, d time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	samples := []interface{}{}
	for _, s := range r.Samples {
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	cov := map[string]interface{}{
		"evaluations": r.Evaluations, "distinct_nontrivial": r.Distinct, "rule": r.Rule, "samples": samples,
		"states": r.States, "transitions": r.Transitions, "traces_validated_against_impl": r.Validated,
		"exhaustive": r.Exhaustive, "cases_per_group": r.Groups, "outcomes": r.Outcomes, "bounds": r.Bounds, "notes": r.Notes,
	}
	if ck.Level == "model_checking" {
		delete(cov, "evaluations") // every case is one trace run on the implementation: one count, one name
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": ck.Level, "coverage": cov,
		"assumptions": append([]string{}, r.Assumptions...), "wall_s": d.Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0o644); err != nil {
		die("%v", err)
	}
}

func setupMod() string {
	if scratch == "" {
		scratch, _ = os.MkdirTemp("", "verif-setup-")
		copyFile(filepath.Join(verif, "mc", "go.mod"), filepath.Join(scratch, "m.mod"))
		copyFile(filepath.Join(repo, "go.sum"), filepath.Join(scratch, "m.sum"))
	}
	return filepath.Join(scratch, "m.mod")
}
