package main

// First use. What the library sets up lazily is set up once in a process, so the schedules in which
// two goroutines meet there can only be explored with a new process for each of them.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

type coldRep struct {
	Out    [2]string `json:"out"`
	Failed [2]string `json:"failed"`
	Points []int     `json:"points"` // points at which package variables are being set up
	Writes bool      `json:"writes"`
	Where  string    `json:"where"`
}

// coldOne: "a" runs operation a as the first one; "a b n" stops a before its point n, runs b to its
// end and then the rest of a.
func coldOne(args []string) int {
	load()
	ops := buildOps()
	num := func(i int) int { n, _ := strconv.Atoi(args[i]); return n }
	a := num(0)
	p := NewPool()
	ba := ops[a].Bind(p)
	var r coldRep
	if len(args) == 1 {
		// the state before: taken twice, what changes by itself is no evidence
		g := globalsSnap()
		var at []int
		n := 0
		onPoint = func(t *thread, id int32) {
			if now := globalsSnap(); now != g {
				g = now
				at = append(at, n)
			}
			n++
		}
		th := execute([2]func(){func() { ba.Call() }, nothing}, nil)
		onPoint = nil
		if globalsSnap() != g {
			at = append(at, n)
		}
		if th[0].failed != nil {
			r.Failed[0] = fmt.Sprint(th[0].failed)
		}
		r.Writes = len(at) > 0
		if r.Writes {
			for i := max(0, at[0]-1); i <= at[len(at)-1]; i++ {
				r.Points = append(r.Points, i)
			}
		}
		r.Out[0] = ba.Outcome()
	} else {
		bb := ops[num(1)].Bind(p)
		stop := num(2)
		n := 0
		onPoint = func(t *thread, id int32) {
			if t.f != nil && r.Where == "" {
				if n == stop {
					r.Where = pname(id)
				}
				n++
			}
		}
		th := execute([2]func(){func() { ba.Call() }, func() { bb.Call() }}, []seg{{0, stop}, {1, -1}})
		onPoint = nil
		for k, t := range th {
			if t.failed != nil {
				r.Failed[k] = fmt.Sprint(t.failed)
			}
		}
		r.Out[0], r.Out[1] = ba.Outcome(), bb.Outcome()
	}
	b, _ := json.Marshal(r)
	fmt.Println("COLD " + string(b))
	return 0
}

func coldRun(self string, args ...int) (r coldRep, err error) {
	l := []string{"-k", "5", "60", self, "cold"}
	for _, a := range args {
		l = append(l, strconv.Itoa(a))
	}
	cmd := exec.Command("timeout", l...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	b, e := cmd.CombinedOutput()
	i := strings.LastIndex(string(b), "COLD ")
	if i < 0 {
		o := string(b)
		if len(o) > 1500 {
			o = o[:1500]
		}
		r.Failed[0] = fmt.Sprintf("the process ended abnormally (%v): %s", e, o)
		if !strings.Contains(o, "goroutine ") && e != nil && !strings.Contains(e.Error(), "124") {
			err = fmt.Errorf("first-use run %v: %v %s", args, e, o)
		}
		return
	}
	err = json.Unmarshal(b[i+5:], &r)
	return
}

func coldJudge(an, bn string, ra, rb, rp coldRep) string {
	for k, n := range []string{an, bn} {
		if rp.Failed[k] != "" && k < 2 {
			return fmt.Sprintf("first use of %s with %s in between: %s fails: %s", an, bn, n, rp.Failed[k])
		}
	}
	if rp.Out[0] != ra.Out[0] {
		return fmt.Sprintf("first use of %s interleaved with %s: %s", an, bn, cdiff(ra.Out[0], rp.Out[0]))
	}
	if rp.Out[1] != rb.Out[0] {
		return fmt.Sprintf("%s in the middle of the first use of %s: %s", bn, an, cdiff(rb.Out[0], rp.Out[1]))
	}
	return ""
}

func coldPass(self, race string, n int, thorough bool, tot map[string]int64) (*cFail, error) {
	ops := buildOps()
	m := len(ops)
	refs := make([]coldRep, m)
	var mu sync.Mutex
	var fail *cFail
	var ferr error
	stop := func() bool { mu.Lock(); defer mu.Unlock(); return fail != nil || ferr != nil }
	set := func(f *cFail, e error) {
		mu.Lock()
		defer mu.Unlock()
		if fail == nil && ferr == nil {
			fail, ferr = f, e
		}
	}
	each := func(k int, f func(i int)) {
		var wg sync.WaitGroup
		c := make(chan int)
		for w := 0; w < n; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range c {
					if !stop() {
						f(i)
					}
				}
			}()
		}
		for i := 0; i < k; i++ {
			c <- i
		}
		close(c)
		wg.Wait()
	}
	each(m, func(i int) {
		r, err := coldRun(self, i)
		if err != nil {
			set(nil, err)
		} else if r.Failed[0] != "" {
			set(&cFail{A: ops[i].Name, Kind: "panic", Msg: "as the first call of a process: " + r.Failed[0]}, nil)
		}
		refs[i] = r
	})
	if fail != nil || ferr != nil {
		return fail, ferr
	}
	type job struct{ a, b, pt int }
	var jobs []job
	var writers []int
	for i := range ops {
		if refs[i].Writes {
			writers = append(writers, i)
		}
	}
	tot["operations_that_set_up_package_variables"] = int64(len(writers))
	// the same operation first, then the other operations
	for round := 0; round < 2; round++ {
		for _, a := range writers {
			pts := refs[a].Points
			if lim := 24; len(pts) > lim && !thorough {
				pts = append(append([]int{}, pts[:lim-4]...), pts[len(pts)-4:]...)
			}
			for b := range ops {
				if (a == b) == (round == 0) && together(ops[a], ops[b]) {
					for _, pt := range pts {
						jobs = append(jobs, job{a, b, pt})
					}
				}
			}
		}
	}
	deadline := time.Now().Add(120 * time.Second)
	if thorough {
		deadline = time.Now().Add(40 * time.Minute)
	}
	each(len(jobs), func(i int) {
		j := jobs[i]
		if time.Now().After(deadline) {
			mu.Lock()
			tot["first_use_schedules_left_out_for_time"]++
			mu.Unlock()
			return
		}
		r, err := coldRun(self, j.a, j.b, j.pt)
		if err != nil {
			set(nil, err)
			return
		}
		mu.Lock()
		tot["first_use_schedules"]++
		tot["schedules"]++
		mu.Unlock()
		if msg := coldJudge(ops[j.a].Name, ops[j.b].Name, refs[j.a], refs[j.b], r); msg != "" {
			set(&cFail{A: ops[j.a].Name, B: ops[j.b].Name, Kind: "cold", Sch: []seg{{0, j.pt}, {1, -1}}, Where: "thread 0 before " + r.Where, Msg: msg}, nil)
		}
	})
	if fail != nil || ferr != nil || race == "" {
		return fail, ferr
	}
	// happens-before: every operation twice in a new process, those that set something up with all
	var pairs [][2]int
	for i := range ops {
		pairs = append(pairs, [2]int{i, i})
	}
	for _, a := range writers {
		for b := range ops {
			if a != b && together(ops[a], ops[b]) {
				pairs = append(pairs, [2]int{a, b})
			}
		}
	}
	each(len(pairs), func(i int) {
		if time.Now().After(deadline.Add(time.Minute)) {
			mu.Lock()
			tot["first_use_happens_before_pairs_left_out_for_time"]++
			mu.Unlock()
			return
		}
		a, b := pairs[i][0], pairs[i][1]
		cmd := exec.Command("timeout", "-k", "5", "60", race, "cold", strconv.Itoa(a), strconv.Itoa(b))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=2 atexit_sleep_ms=0")
		out, _ := cmd.CombinedOutput()
		o := string(out)
		if k := strings.Index(o, "WARNING: DATA RACE"); k >= 0 {
			o = o[k:]
			if len(o) > 3000 {
				o = o[:3000]
			}
			set(&cFail{A: ops[a].Name, B: ops[b].Name, Kind: "race", Msg: "data race between the first two calls of a process, " + ops[a].Name + " and " + ops[b].Name + ": " + o}, nil)
		}
		mu.Lock()
		tot["first_use_happens_before_pairs"]++
		mu.Unlock()
	})
	return fail, ferr
}
