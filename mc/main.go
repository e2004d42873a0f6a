package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: mc run ID | mc replay FILE | mc list | mc child ID OUT JOURNAL [ONLYFILE]")
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "run":
		if len(os.Args) != 3 {
			usage()
		}
		os.Exit(supervise(os.Args[2]))
	case "replay":
		if len(os.Args) != 3 {
			usage()
		}
		os.Exit(replay(os.Args[2]))
	case "first":
		k := 0
		fmt.Sscan(os.Args[2], &k)
		fmt.Print(firstOutcome(k))
	case "child":
		if len(os.Args) < 5 {
			usage()
		}
		var only *Failure
		if len(os.Args) > 5 {
			only = readFailure(os.Args[5])
		}
		os.Exit(childMain(os.Args[2], os.Args[3], os.Args[4], only))
	default:
		usage()
	}
}

func readFailure(path string) *Failure {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	f := &Failure{}
	if err := json.Unmarshal(b, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return f
}

// runChild runs one exploration process; abnormal endings (fatal runtime errors, hangs, kills)
// are returned as an error with the tail of its stderr.
func runChild(id, dir string, only *Failure) (*childResult, string, error) {
	out := filepath.Join(dir, "out.json")
	os.Remove(out)
	journal := filepath.Join(dir, "journal")
	if only == nil {
		os.Remove(journal)
	} else {
		journal = filepath.Join(dir, "journal2")
	}
	args := []string{"child", id, out, journal}
	if only != nil {
		p := filepath.Join(dir, "only.json")
		b, _ := json.Marshal(only)
		os.WriteFile(p, b, 0o644)
		args = append(args, p)
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, args...)
	var errb bytes.Buffer
	cmd.Stderr = &errb
	cmd.Stdout = os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMEMLIMIT=12GiB")
	err := cmd.Run()
	b, rerr := os.ReadFile(out)
	if err == nil && rerr == nil {
		r := &childResult{}
		if jerr := json.Unmarshal(b, r); jerr != nil {
			return nil, errb.String(), jerr
		}
		return r, errb.String(), nil
	}
	if err == nil {
		err = rerr
	}
	return nil, errb.String(), err
}

func supervise(id string) int {
	if props[id] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "vmc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	res, stderr, err := runChild(id, dir, nil)
	if err != nil {
		code := -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
		if code == 2 && !strings.Contains(stderr, "goroutine") {
			fmt.Fprintln(os.Stderr, stderr)
			fmt.Fprintln(os.Stderr, "check error:", err)
			return 2
		}
		// The exploration died inside the code under test (stack exhaustion, runtime fatal error,
		// endless loop, out of memory). Find the case by re-running the journalled candidates.
		res = attributeCrash(id, dir, stderr, err, code)
		if res == nil {
			fmt.Fprintln(os.Stderr, tail(stderr, 4000))
			fmt.Fprintln(os.Stderr, "check error: the exploration ended abnormally and the ending did not repeat:", err)
			return 2
		}
	}
	return finish(id, t0, res)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func attributeCrash(id, dir, stderr string, err error, code int) *childResult {
	fl := &Failure{Property: id, Sig: "fatal", Tier: os.Getenv("VERIF_TIER")}
	first := ""
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "runtime: goroutine stack") || strings.HasPrefix(l, "HANG") || strings.HasPrefix(l, "panic:") {
			first += l + " "
		}
	}
	fl.Msg = fmt.Sprintf("the process exploring the code ended abnormally (%v): %s", err, first)
	fl.Stack = tail(stderr, 6000)
	// which case?
	b, _ := os.ReadFile(filepath.Join(dir, "journal"))
	type cand struct{ space, idx int64 }
	var cands []cand
	for w := 0; w+16 <= len(b); w += 16 {
		s := int64(binary.LittleEndian.Uint64(b[w:]))
		i := int64(binary.LittleEndian.Uint64(b[w+8:]))
		if i > 0 {
			cands = append(cands, cand{s, i - 1})
		}
	}
	var list []string
	for _, c := range cands {
		list = append(list, fmt.Sprintf("space#%d index %d", c.space, c.idx))
	}
	fl.Desc = "one of the cases in flight: " + strings.Join(list, ", ")
	// The whole exploration is deterministic: it must die again.
	_, stderr2, err2 := runChild(id, dir, nil)
	if err2 == nil {
		return nil
	}
	if ee, ok := err2.(*exec.ExitError); ok && ee.ExitCode() == 2 && !strings.Contains(stderr2, "goroutine") {
		return nil
	}
	fl.Repro = "the exploration ended the same way twice"
	return &childResult{Fail: fl, Coverage: map[string]interface{}{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{fl.Desc}, "exhaustive": false}}
}

func finish(id string, t0 time.Time, res *childResult) int {
	viol := 0
	if res.Fail != nil {
		viol = 1
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if res.Coverage["samples"] == nil {
		res.Coverage["samples"] = []string{}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": res.Coverage, "assumptions": res.Assum,
		"wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	if ev["assumptions"] == nil || res.Assum == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, k := range res.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	fmt.Printf("%s %s: states=%v transitions=%v traces=%v exhaustive=%v wall=%.1fs\n", id, tier,
		res.Coverage["states"], res.Coverage["transitions"], res.Coverage["traces_validated_against_impl"], res.Coverage["exhaustive"], time.Since(t0).Seconds())
	if res.Fail == nil {
		return 0
	}
	os.MkdirAll(filepath.Join(verifDir(), "replays"), 0o755)
	rp := filepath.Join(verifDir(), "replays", id+".json")
	fb, _ := json.MarshalIndent(res.Fail, "", " ")
	os.WriteFile(rp, append(fb, '\n'), 0o644)
	fmt.Printf("  case:    %s\n  failed:  %s\n", res.Fail.Desc, res.Fail.Msg)
	if res.Fail.Stack != "" && res.Fail.Sig == "panic" {
		fmt.Printf("  at:      %s\n", res.Fail.Stack)
	}
	fmt.Printf("  space:   %s index %d, signature %s, reproduced: %s\n", res.Fail.Space, res.Fail.Index, res.Fail.Sig, res.Fail.Repro)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func replay(path string) int {
	fl := readFailure(path)
	os.Setenv("VERIF_TIER", fl.Tier)
	if fl.Sig == "fatal" {
		fmt.Println("the recorded failure ends the process; run: bash run.sh", fl.Property)
		return supervise(fl.Property)
	}
	dir, err := os.MkdirTemp("", "vmc")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(dir)
	res, stderr, err := runChild(fl.Property, dir, fl)
	if err != nil {
		fmt.Println("replay ended abnormally:", err)
		fmt.Println(tail(stderr, 3000))
		return 1
	}
	if res.Fail == nil {
		fmt.Println("replay: the property holds on the recorded case")
		return 0
	}
	fmt.Printf("replay: violated\n  case:   %s\n  failed: %s\n  at:     %s\n", res.Fail.Desc, res.Fail.Msg, res.Fail.Stack)
	return 1
}
