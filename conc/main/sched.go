package main

// A deterministic cooperative scheduler for two threads over the instrumented library, and the
// exploration of all schedules up to a preemption bound (C02).

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	vs "github.com/hzw456/go-geo/verifsched"
	"github.com/hzw456/go-geo/wkt"
)

// ------------------------------------------------------------------ scheduler

type thread struct {
	f      func()
	resume chan struct{}
	n      int // points passed
	stopAt int // yield at this point; -1: run on
	done   bool
	failed interface{}
	stack  string
	wait   bool // yielded because it has to wait for the other thread
}

var (
	cur     *thread
	yielded = make(chan struct{})
	onPoint func(t *thread, id int32)
)

func hook(id int32) {
	t := cur
	if t == nil {
		return
	}
	if onPoint != nil {
		onPoint(t, id)
	}
	k := t.n
	t.n++
	if k == t.stopAt {
		yielded <- struct{}{}
		<-t.resume
	}
}

func blocked() {
	t := cur
	t.wait = true
	yielded <- struct{}{}
	<-t.resume
	t.wait = false
}

var jobs [2]chan *thread

func startWorkers() {
	for k := range jobs {
		jobs[k] = make(chan *thread)
		go func(c chan *thread) {
			for t := range c {
				<-t.resume
				func() {
					defer func() {
						if r := recover(); r != nil {
							t.failed = r
							t.stack = string(debug.Stack())
						}
					}()
					t.f()
				}()
				t.done = true
				yielded <- struct{}{}
			}
		}(jobs[k])
	}
}

// seg: let thread t run up to its point n (-1: to its end).
type seg struct{ T, N int }

// execute runs two functions under a schedule; after the schedule both run to their ends.
func execute(f [2]func(), sch []seg) [2]*thread {
	var th [2]*thread
	for k := range th {
		th[k] = &thread{f: f[k], resume: make(chan struct{}), stopAt: -1}
		jobs[k] <- th[k]
	}
	run := func(k, n int) {
		t := th[k]
		if t.done {
			return
		}
		t.stopAt = n
		cur = t
		t.resume <- struct{}{}
		<-yielded
	}
	for _, s := range sch {
		run(s.T, s.N)
	}
	for rounds := 0; !th[0].done || !th[1].done; rounds++ {
		if rounds > 100000 {
			panic("schedule does not end")
		}
		// a thread that waits gives way to the other one
		k := 0
		if th[0].done || th[0].wait && !th[1].done && rounds%2 == 0 {
			k = 1
		}
		run(k, -1)
	}
	cur = nil
	return th
}

// ------------------------------------------------------------------ operations alone

type opInfo struct {
	ref    string
	points []int32 // statement of every point of the run
	sel    []int   // points at which it is preempted
	first  []int   // first occurrence of each statement
	writes bool    // changes a package variable on the way
}

type report struct {
	Fail *cFail           `json:"fail"`
	N    map[string]int64 `json:"n"`
}

type cFail struct {
	Property string `json:"property"`
	A        string `json:"first_thread"`
	B        string `json:"second_thread"`
	Sch      []seg  `json:"schedule"`
	Msg      string `json:"message"`
	Kind     string `json:"kind"`
	Where    string `json:"preempted_at"`
	Tier     string `json:"tier"`
}

var pointNames []string

func pname(id int32) string {
	if id >= 0 && int(id) < len(pointNames) {
		return pointNames[id]
	}
	if id = -100 - id; id >= 0 && int(id) < len(pointNames) {
		return pointNames[id] + " (a lock or an atomic operation in it)"
	}
	return "a lock"
}

func globalsSnap() string {
	var b strings.Builder
	for _, l := range [][]interface{}{geo.VerifGlobals(), wkt.VerifGlobals(), geojson.VerifGlobals()} {
		for _, g := range l {
			b.WriteString(canon(g, false, true))
			b.WriteByte(';')
		}
	}
	return b.String()
}

var nothing = func() {}

// alone runs an operation by itself: its outcome, its points, and whether shared memory is left
// alone at every point.
func alone(o *Op, thorough bool) (in opInfo, fail *cFail) {
	p := NewPool()
	b := o.Bind(p)
	ref := NewPool()
	bb := o.Bind(ref)
	bb.Call() // package initialisation that happens on the first use
	args := map[string]interface{}{}
	for k, v := range p.v {
		if _, ok := v.(*geo.Rtree); !ok {
			args[k] = v
		}
	}
	snap := func() string {
		var s strings.Builder
		for _, k := range sortedKeys(args) {
			s.WriteString(k + "=" + canon(args[k], false, true) + "\n")
		}
		return s.String()
	}
	before := snap()
	g := globalsSnap()
	var bad string
	onPoint = func(t *thread, id int32) {
		in.points = append(in.points, id)
		// every point of short runs, the first occurrences of each statement in long ones
		if bad == "" {
			if now := snap(); now != before {
				bad = fmt.Sprintf("before %s an argument shared with other goroutines is changed: %s", pname(id), cdiff(before, now))
			}
			if !in.writes && globalsSnap() != g {
				in.writes = true
			}
		}
	}
	th := execute([2]func(){b.Call, nothing}, nil)
	onPoint = nil
	if th[0].failed != nil {
		return in, &cFail{A: o.Name, Kind: "panic", Msg: fmt.Sprintf("panic: %v", th[0].failed)}
	}
	if bad != "" {
		return in, &cFail{A: o.Name, Kind: "write", Msg: o.Name + ": " + bad}
	}
	in.writes = in.writes || globalsSnap() != g
	in.ref = b.Outcome()
	in.sel, in.first = choose(in.points, thorough)
	return in, nil
}

// choose gives the points at which a run is preempted: all points of a short run, otherwise the
// first occurrences and the last one of every statement.
func choose(points []int32, thorough bool) (sel, first []int) {
	maxAll, occ := 24, 2
	if thorough {
		maxAll, occ = 250, 6
	}
	last := map[int32]int{}
	for i, id := range points {
		last[id] = i
	}
	seen := map[int32]int{}
	for i, id := range points {
		if seen[id] == 0 {
			first = append(first, i)
		}
		if len(points) <= maxAll || seen[id] < occ || last[id] == i {
			sel = append(sel, i)
		}
		seen[id]++
	}
	return
}

func cdiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("...%s... became ...%s...", a[lo:min(len(a), i+80)], b[lo:min(len(b), i+80)])
}

// runPair executes one schedule of two operations on shared arguments.
func runPair(p *Pool, ops []*Op, info []opInfo, a, b int, sch []seg) *cFail {
	ba, bb := ops[a].Bind(p), ops[b].Bind(p)
	var ra, rb string
	th := execute([2]func(){func() { ba.Call() }, func() { bb.Call() }}, sch)
	mk := func(kind, f string, x ...interface{}) *cFail {
		fl := &cFail{A: ops[a].Name, B: ops[b].Name, Sch: sch, Kind: kind, Msg: fmt.Sprintf(f, x...)}
		for _, s := range sch {
			i := info[[]int{a, b}[s.T]]
			if s.N >= 0 && s.N < len(i.points) {
				fl.Where += fmt.Sprintf("thread %d before %s; ", s.T, pname(i.points[s.N]))
			}
		}
		return fl
	}
	for k, t := range th {
		if t.failed != nil {
			return mk("panic", "%s panics: %v", []string{ops[a].Name, ops[b].Name}[k], t.failed)
		}
	}
	ra, rb = ba.Outcome(), bb.Outcome()
	if ra != info[a].ref {
		return mk("outcome", "%s interleaved with %s: %s", ops[a].Name, ops[b].Name, cdiff(info[a].ref, ra))
	}
	if rb != info[b].ref {
		return mk("outcome", "%s in the middle of %s: %s", ops[b].Name, ops[a].Name, cdiff(info[b].ref, rb))
	}
	return nil
}

func load() {
	b, err := os.ReadFile(os.Getenv("VERIF_POINTS"))
	if err == nil {
		json.Unmarshal(b, &pointNames)
	}
	startWorkers()
	vs.Hook = hook
	vs.Blocked = blocked
}

func shard(k, n int, out string, thorough bool) int {
	load()
	t0, budget := time.Now(), 300*time.Second
	if thorough {
		budget = 90 * time.Minute
	}
	ops := buildOps()
	info := make([]opInfo, len(ops))
	rep := report{N: map[string]int64{}}
	save := func() int {
		b, _ := json.Marshal(rep)
		if os.WriteFile(out, b, 0o644) != nil {
			return 2
		}
		return 0
	}
	// no schedule takes long: one that does not end is a deadlock or an endless loop
	var beat int64
	var what atomic.Value
	what.Store(cFail{Kind: "hang"})
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			if now := atomic.LoadInt64(&beat); now != last {
				last, since = now, time.Now()
			} else if time.Since(since) > 90*time.Second {
				f := what.Load().(cFail)
				f.Msg = "the calls do not end: deadlock or endless loop"
				b, _ := json.Marshal(report{Fail: &f, N: map[string]int64{}})
				os.WriteFile(out, b, 0o644)
				os.Exit(0)
			}
		}
	}()
	for i, o := range ops {
		atomic.AddInt64(&beat, 1)
		what.Store(cFail{Kind: "hang", A: o.Name})
		in, fl := alone(o, thorough)
		if fl != nil {
			rep.Fail = fl
			return save()
		}
		info[i] = in
		if k == 0 {
			rep.N["operations"]++
			rep.N["points_monitored"] += int64(len(in.points))
			rep.N["preemption_points"] += int64(len(in.sel))
			if in.writes {
				rep.N["operations_that_change_package_variables"]++
			}
		}
	}
	m := len(ops)
	for idx := k; idx < m*m; idx += n {
		a, b := idx%m, idx/m
		if !together(ops[a], ops[b]) {
			continue
		}
		if time.Since(t0) > budget {
			rep.N["pairs_left_out_for_time"]++
			continue
		}
		p := NewPool()
		ops[a].Bind(p)
		ops[b].Bind(p)
		before := p.Snap()
		try := func(sch []seg) bool {
			rep.N["schedules"]++
			atomic.AddInt64(&beat, 1)
			what.Store(cFail{Kind: "hang", A: ops[a].Name, B: ops[b].Name, Sch: sch})
			rep.N["steps"] += int64(len(sch) + 2)
			rep.Fail = runPair(p, ops, info, a, b, sch)
			return rep.Fail == nil
		}
		rep.N["pairs"]++
		for _, x := range info[a].sel {
			if !try([]seg{{0, x}, {1, -1}}) {
				return save()
			}
		}
		// two preemptions: the same operation twice, or an operation that changes package variables
		deep := a == b || info[a].writes || info[b].writes || thorough && sameKind(ops[a], ops[b])
		if deep {
			rep.N["pairs_with_two_preemptions"]++
			xs, ys := limit(info[a].first, thorough), limit(info[b].first, thorough)
			for _, x := range xs {
				for _, y := range ys {
					if !try([]seg{{0, x}, {1, y}, {0, -1}}) {
						return save()
					}
				}
			}
		}
		if after := p.Snap(); after != before {
			rep.Fail = &cFail{A: ops[a].Name, B: ops[b].Name, Kind: "argument", Msg: fmt.Sprintf("%s and %s changed a shared argument: %s", ops[a].Name, ops[b].Name, cdiff(before, after))}
			return save()
		}
	}
	return save()
}

func limit(x []int, thorough bool) []int {
	n := 40
	if thorough {
		n = 120
	}
	if len(x) > n {
		return x[:n]
	}
	return x
}

func sameKind(a, b *Op) bool {
	f := func(o *Op) string { return o.Name[:strings.Index(o.Name, "(")] }
	return f(a) == f(b) || len(a.Args) > 0 && len(b.Args) > 0 && fmt.Sprint(a.Args[0]) == fmt.Sprint(b.Args[0]) && strings.Contains(fmt.Sprint(a.Args[0]), "tree")
}

// ------------------------------------------------------------------ the parent

func main() {
	switch os.Args[1] {
	case "shard":
		k, _ := strconv.Atoi(os.Args[2])
		n, _ := strconv.Atoi(os.Args[3])
		os.Exit(shard(k, n, os.Args[4], os.Getenv("VERIF_TIER") == "thorough"))
	case "run":
		os.Exit(parent())
	case "replay":
		os.Exit(replayC(os.Args[2]))
	case "cold":
		os.Exit(coldOne(os.Args[2:]))
	}
	os.Exit(2)
}

func parent() int {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "vconc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	n := min(8, runtime.NumCPU())
	self, _ := os.Executable()
	var wg sync.WaitGroup
	reps := make([]report, n)
	errs := make([]error, n)
	outs := make([]string, n)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			out := filepath.Join(dir, fmt.Sprint(k))
			cmd := exec.CommandContext(ctx, "timeout", "-k", "5", map[string]string{"quick": "500", "thorough": "6000"}[tier], self, "shard", fmt.Sprint(k), fmt.Sprint(n), out)
			cmd.Cancel = func() error { return cmd.Process.Signal(syscall.SIGTERM) }
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			var sb strings.Builder
			cmd.Stderr = &sb
			errs[k] = cmd.Run()
			outs[k] = sb.String()
			if b, err := os.ReadFile(out); err == nil {
				json.Unmarshal(b, &reps[k])
			}
			if reps[k].Fail != nil {
				cancel() // the other processes need not go on
			}
		}(k)
	}
	wg.Wait()
	tot := map[string]int64{}
	var fail *cFail
	for k := range reps {
		for s, v := range reps[k].N {
			tot[s] += v
		}
		if reps[k].Fail != nil && fail == nil {
			fail = reps[k].Fail
		}
	}
	for k := range errs {
		if errs[k] != nil && fail == nil {
			if strings.Contains(outs[k], "goroutine ") {
				o := outs[k]
				if len(o) > 1500 {
					o = o[:1500]
				}
				fail = &cFail{Kind: "fatal", Msg: fmt.Sprintf("exploring process %d ended abnormally (%v): %s", k, errs[k], o)}
			} else {
				fmt.Fprintln(os.Stderr, "check error:", errs[k], outs[k])
				return 2
			}
		}
	}
	// first use: every operation as the first call of a new process
	if fail == nil {
		f, err := coldPass(self, os.Getenv("VERIF_RACEBIN"), n, tier == "thorough", tot)
		if err != nil {
			fmt.Fprintln(os.Stderr, "check error:", err)
			return 2
		}
		fail = f
	}
	// happens-before pass: the same pairs with the race detector, in a binary of its own
	race := os.Getenv("VERIF_RACEBIN")
	raceNote := "not available"
	if race != "" && fail == nil {
		var f *cFail
		f, raceNote = racePass(race, dir, n)
		fail = f
	}
	ev := map[string]interface{}{
		"property": "C02", "tier": tier, "seed": 1, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": tot["schedules"], "transitions": tot["steps"], "schedules": tot["schedules"],
			"traces_validated_against_impl": tot["schedules"],
			"counts":                        tot, "happens_before_pass": raceNote, "exhaustive": fail == nil && tot["pairs_left_out_for_time"] == 0,
			"rule":    "two goroutines with one operation each on shared arguments, run by a cooperative scheduler that preempts before statements of the library; every pair of operations of the catalogue, every schedule with one preemption at the first two and the last occurrence of each statement (every statement in runs of at most 24; thorough: six occurrences, 250), every schedule with two preemptions at first occurrences for an operation with itself and for operations that change package variables (thorough: for operations of the same function or tree); outcomes compared with the operation alone; shared arguments compared with their initial contents before every statement of every operation; package sync's locks, pools and maps and the atomic operations replaced by the scheduler's, which preempts before each of them; first use: every operation as the first call of a new process, and for operations that change package variables there, every pair with them in a new process for every point from the first to the last change; every operation twice in a new process under the race detector",
			"samples": []string{"threads A: ConvexHull(@pts25) and B: Mbr(@mp); A runs to its k-th statement, B runs to its end, A goes on"},
		},
		"assumptions": []string{"the code of the libraries s2, geohash and of the standard library is atomic between statements of go-geo in the explored schedules; the happens-before pass looks inside them", "goroutines edit only values of their own; SetSrid and editing methods on shared values are outside the property"},
		"wall_s":      time.Since(t0).Seconds(), "violations": 0,
	}
	if fail != nil {
		ev["violations"] = 1
	}
	vd := os.Getenv("VERIF_DIR")
	os.MkdirAll(filepath.Join(vd, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(vd, "evidence", "C02.json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("C02 %s: schedules=%d pairs=%d operations=%d happens-before: %s wall=%.1fs\n", tier, tot["schedules"], tot["pairs"], tot["operations"], raceNote, time.Since(t0).Seconds())
	if fail == nil {
		return 0
	}
	fail.Property, fail.Tier = "C02", tier
	os.MkdirAll(filepath.Join(vd, "replays"), 0o755)
	rp := filepath.Join(vd, "replays", "C02.json")
	b, _ = json.MarshalIndent(fail, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	fmt.Printf("  threads: %s | %s\n  schedule: %v %s\n  failed:  %s\n", fail.A, fail.B, fail.Sch, fail.Where, fail.Msg)
	fmt.Printf("VIOLATION property=C02 replay=%s\n", rp)
	return 1
}

func racePass(bin, dir string, n int) (*cFail, string) {
	var wg sync.WaitGroup
	outs := make([]string, n)
	errs := make([]error, n)
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			cmd := exec.Command("timeout", "-k", "5", "200", bin, fmt.Sprint(k), fmt.Sprint(n))
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=2 atexit_sleep_ms=0")
			b, err := cmd.CombinedOutput()
			outs[k], errs[k] = string(b), err
		}(k)
	}
	wg.Wait()
	pairs := 0
	for k := range errs {
		if errs[k] != nil {
			if strings.Contains(outs[k], "WARNING: DATA RACE") {
				o := outs[k][strings.Index(outs[k], "WARNING: DATA RACE"):]
				if len(o) > 3000 {
					o = o[:3000]
				}
				l := strings.Split(strings.TrimSpace(outs[k][:strings.Index(outs[k], "WARNING: DATA RACE")]), "\n")
				at := l[len(l)-1]
				for i := len(l) - 1; i >= 0; i-- {
					if strings.HasPrefix(l[i], "op ") {
						at = l[i]
						break
					}
				}
				return &cFail{A: at, Kind: "race", Msg: "data race between two concurrent calls without synchronisation (" + at + "): " + o}, "race found"
			}
			return nil, fmt.Sprintf("did not finish (%v)", errs[k])
		}
		var p int
		i := strings.LastIndex(outs[k], "pairs ")
		if i >= 0 {
			fmt.Sscanf(outs[k][i:], "pairs %d", &p)
		}
		pairs += p
	}
	return nil, fmt.Sprintf("%d pairs of calls without synchronisation between them, no race", pairs)
}

func replayC(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fl := &cFail{}
	if json.Unmarshal(b, fl) != nil {
		return 2
	}
	load()
	ops := buildOps()
	find := func(n string) int {
		for i, o := range ops {
			if o.Name == n {
				return i
			}
		}
		return -1
	}
	a, bb := find(fl.A), find(fl.B)
	if fl.Kind == "cold" && len(fl.Sch) == 2 && a >= 0 && bb >= 0 {
		self, _ := os.Executable()
		ra, e1 := coldRun(self, a)
		rb, e2 := coldRun(self, bb)
		rp, e3 := coldRun(self, a, bb, fl.Sch[0].N)
		if e1 != nil || e2 != nil || e3 != nil {
			fmt.Println("replay:", e1, e2, e3)
			return 2
		}
		if m := coldJudge(ops[a].Name, ops[bb].Name, ra, rb, rp); m != "" {
			fmt.Println("replay: violated:", m)
			return 1
		}
		fmt.Println("replay: the property holds on the recorded schedule")
		return 0
	}
	if a < 0 || (bb < 0 && fl.B != "") || fl.Kind == "race" || fl.Kind == "fatal" || fl.Kind == "hang" {
		fmt.Println("the recorded violation was found by the happens-before pass or ended the process; run: bash run.sh C02")
		return 2
	}
	info := make([]opInfo, len(ops))
	for _, k := range []int{a, bb} {
		if k < 0 {
			continue
		}
		in, f := alone(ops[k], fl.Tier == "thorough")
		if f != nil {
			fmt.Println("replay: violated:", f.Msg)
			return 1
		}
		info[k] = in
	}
	if bb >= 0 {
		p := NewPool()
		ops[a].Bind(p)
		ops[bb].Bind(p)
		before := p.Snap()
		if f := runPair(p, ops, info, a, bb, fl.Sch); f != nil {
			fmt.Println("replay: violated:", f.Msg)
			return 1
		}
		if p.Snap() != before {
			fmt.Println("replay: violated: a shared argument changed")
			return 1
		}
	}
	fmt.Println("replay: the property holds on the recorded schedule")
	return 0
}
