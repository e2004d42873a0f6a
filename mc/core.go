package main

// Exploration core: exhaustive enumeration of finite case spaces (Enum) and explicit-state
// breadth-first search over the real implementation (BFS), with measured counts, minimal
// counterexamples, replay, a per-case journal for crashes, and a hang watchdog.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- properties

type Prop struct {
	ID    string
	Rule  string   // how cases are made, what is compared
	Assum []string // assumptions
	Run   func(c *Ctx)
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if props[p.ID] != nil {
		panic("duplicate " + p.ID)
	}
	props[p.ID] = p
}

// ---------------------------------------------------------------- context

type SpaceStat struct {
	Ops     int64            `json:"calls"`
	Traces  int64            `json:"traces"`
	Name    string           `json:"name"`
	Kind    string           `json:"kind"`
	Size    int64            `json:"size"`
	Visited int64            `json:"visited"`
	Full    bool             `json:"complete"`
	Depth   int              `json:"depth,omitempty"`
	Levels  []int64          `json:"new_states_per_level,omitempty"`
	Outs    map[string]int64 `json:"outcomes,omitempty"`
	Wall    float64          `json:"wall_s"`
}

type Failure struct {
	Property string `json:"property"`
	Space    string `json:"space"`
	Index    int64  `json:"index"`
	History  []int  `json:"history,omitempty"`
	Sig      string `json:"signature"`
	Msg      string `json:"message"`
	Desc     string `json:"case"`
	Tier     string `json:"tier"`
	Stack    string `json:"stack,omitempty"`
	Repro    string `json:"reproduced,omitempty"`
}

type Ctx struct {
	P        *Prop
	Tier     string
	Seed     int64
	deadline time.Time
	workers  int

	only      *Failure // replay mode: run just this case
	onlyFound bool

	known map[string]string // signature -> text

	mu      sync.Mutex
	spaces  []*SpaceStat
	samples []string
	fail    *Failure
	knownN  map[string]int64
	knownEx map[string]string
	capped  bool

	states, transitions, traces int64
	obs                         *hashSet
	journal                     []byte
	spaceIdx                    int64
	beats                       []beat
}

type beat struct {
	start atomic.Int64
	idx   atomic.Int64
	space atomic.Int64
	_     [40]byte
}

// level of the bounds: 0, 1 or 2. The thorough tier always has 2; the quick tier has as much
// as takes about a minute (quickLevel).
func (c *Ctx) level() int {
	if c.Tier == "thorough" {
		return 2
	}
	return quickLevel[c.P.ID]
}

func (c *Ctx) Thorough() bool { return c.level() >= 1 }

// Pick returns the bound of the current level, the last one if there are fewer.
func Pick[V any](c *Ctx, vs ...V) V {
	if l := c.level(); l < len(vs) {
		return vs[l]
	}
	return vs[len(vs)-1]
}

// sizes lists the numbers from lo to hi, and some beyond up to top: around powers of two and round
// numbers, where code that treats small and large inputs differently changes over.
func sizes(lo, hi, top int) (r []int) {
	for n := lo; n <= hi; n++ {
		r = append(r, n)
	}
	for _, n := range []int{33, 49, 51, 64, 65, 66, 97, 100, 101, 102, 127, 128, 129, 130, 150, 200, 201, 255, 256, 257, 258, 300, 301, 400, 500, 501, 511, 512, 513, 514, 600, 700, 800, 1000, 1001, 1023, 1024, 1025, 1026, 1100, 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097} {
		if n > hi && n <= top {
			r = append(r, n)
		}
	}
	return
}

var quickLevel = map[string]int{}

func init() {
	for _, id := range strings.Fields("P01 P02 P03 P04 B01 B02 A01 A02 H01 H02 H03 D01 D02 D03 D04 S01 V01 F01 L01 L02 L03 E01 E02 E03 E04 E05 W01 W02 W03 J01 J02 J03 J04") {
		quickLevel[id] = 1
	}
}

// T is the per-worker handle given to case functions.
type T struct {
	c       *Ctx
	worker  int
	index   int64
	desc    func() string
	hist    []int
	outs    map[string]int64
	states  int64
	ops     int64
	traces  int64
	samples int
	scratch map[string]interface{}
}

type failure struct{ sig, msg string }

// Failf reports a violation of the property in the current case. sig identifies the kind of
// failure (used only to match known findings).
func (t *T) Failf(sig, format string, a ...interface{}) {
	panic(failure{sig, fmt.Sprintf(format, a...)})
}

func (t *T) Desc(f func() string) { t.desc = f }
func (t *T) Op(n int)             { t.ops += int64(n) }
func (t *T) Trace()               { t.traces++ }
func (t *T) Out(class string)     { t.outs[class]++ }
func (t *T) Tick()                { t.c.beats[t.worker].start.Store(time.Now().UnixNano()) }

// Obs records one observed result (hash) so that the evidence reports how many distinct
// results the executions produced.
func (t *T) Obs(h uint64) { t.c.obs.add(h) }

var hseed = maphash.MakeSeed()

func hashStr(s string) uint64 { return maphash.String(hseed, s) }

type hashSet struct {
	sh [256]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	n   atomic.Int64
	cap int64
}

func newHashSet(capn int64) *hashSet {
	h := &hashSet{cap: capn}
	for i := range h.sh {
		h.sh[i].m = map[uint64]struct{}{}
	}
	return h
}

func (h *hashSet) add(x uint64) bool {
	if h.n.Load() >= h.cap {
		return false
	}
	s := &h.sh[x&255]
	s.Lock()
	_, ok := s.m[x]
	if !ok {
		s.m[x] = struct{}{}
		h.n.Add(1)
	}
	s.Unlock()
	return !ok
}

// ---------------------------------------------------------------- running one case

// runCase executes f and converts a Failf or any panic of the code under test to a Failure.
func (c *Ctx) runCase(t *T, space string, index int64, f func(t *T)) (fl *Failure) {
	t.index = index
	t.desc = nil
	t.hist = nil
	b := &c.beats[t.worker]
	b.idx.Store(index)
	b.start.Store(time.Now().UnixNano())
	if c.journal != nil {
		binary.LittleEndian.PutUint64(c.journal[t.worker*16:], uint64(c.spaceIdx))
		binary.LittleEndian.PutUint64(c.journal[t.worker*16+8:], uint64(index)+1)
	}
	defer func() {
		b.start.Store(0)
		if r := recover(); r != nil {
			fl = &Failure{Property: c.P.ID, Space: space, Index: index, Tier: c.Tier}
			if fr, ok := r.(failure); ok {
				fl.Sig, fl.Msg = fr.sig, fr.msg
			} else {
				st := string(debug.Stack())
				fl.Sig = "panic"
				fl.Msg = fmt.Sprintf("panic: %v", r)
				fl.Stack = trimStack(st)
			}
			fl.History = append([]int{}, t.hist...)
			if t.desc != nil {
				func() {
					defer func() {
						if r := recover(); r != nil {
							fl.Desc = fmt.Sprintf("(description failed: %v)", r)
						}
					}()
					fl.Desc = t.desc()
				}()
			}
		}
	}()
	f(t)
	return nil
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "go-geo") {
			if i > 0 && !strings.HasPrefix(l, "github") {
				out = append(out, strings.TrimSpace(lines[i-1]))
			}
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, " | ")
}

func (c *Ctx) isKnown(fl *Failure) bool {
	if _, ok := c.known[fl.Sig]; ok && c.only == nil {
		c.mu.Lock()
		c.knownN[fl.Sig]++
		if _, ok := c.knownEx[fl.Sig]; !ok {
			c.knownEx[fl.Sig] = fl.Desc + " -- " + fl.Msg
		}
		c.mu.Unlock()
		return true
	}
	return false
}

func (c *Ctx) newT(w int) *T {
	return &T{c: c, worker: w, outs: map[string]int64{}, scratch: map[string]interface{}{}}
}

func (c *Ctx) merge(st *SpaceStat, t *T) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if st.Outs == nil {
		st.Outs = map[string]int64{}
	}
	for k, v := range t.outs {
		st.Outs[k] += v
	}
	c.transitions += t.ops
	c.traces += t.traces
	c.states += t.states
	st.Ops += t.ops
	st.Traces += t.traces
}

func (c *Ctx) Sample(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	c.samples = append(c.samples, s)
}

func (c *Ctx) stopped() bool {
	c.mu.Lock()
	f := c.fail != nil
	c.mu.Unlock()
	return f
}

// ---------------------------------------------------------------- Enum

// Enum runs f on every index of a finite space. Each index is a different case, so the number
// of visited indices is the number of distinct states explored. On a violation the smallest
// failing index is kept.
func (c *Ctx) Enum(name string, n int64, f func(i int64, t *T)) {
	c.spaceIdx++
	if c.only != nil {
		if c.only.Space == name {
			c.onlyFound = true
			t := c.newT(0)
			if fl := c.runCase(t, name, c.only.Index, func(t *T) { f(c.only.Index, t) }); fl != nil {
				c.fail = fl
			}
		}
		return
	}
	if c.stopped() {
		return
	}
	st := &SpaceStat{Name: name, Kind: "enumeration", Size: n}
	t0 := time.Now()
	var next, visited atomic.Int64
	var minFail atomic.Int64
	minFail.Store(math.MaxInt64)
	var fmu sync.Mutex
	var best *Failure
	var timeout atomic.Bool
	chunk := n / int64(c.workers*64)
	if chunk < 1 {
		chunk = 1
	}
	if chunk > 4096 {
		chunk = 4096
	}
	var wg sync.WaitGroup
	for w := 0; w < c.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			t := c.newT(w)
			defer c.merge(st, t)
			for {
				lo := next.Add(chunk) - chunk
				if lo >= n || lo > minFail.Load() {
					return
				}
				if time.Now().After(c.deadline) {
					timeout.Store(true)
					return
				}
				hi := lo + chunk
				if hi > n {
					hi = n
				}
				for i := lo; i < hi; i++ {
					if i > minFail.Load() {
						return
					}
					fl := c.runCase(t, name, i, func(t *T) { f(i, t) })
					visited.Add(1)
					t.states++
					if fl != nil {
						if c.isKnown(fl) {
							continue
						}
						fmu.Lock()
						if best == nil || fl.Index < best.Index {
							best = fl
							minFail.Store(fl.Index)
						}
						fmu.Unlock()
						return
					}
					if t.samples == 0 && w == 0 && t.desc != nil {
						t.samples++
						c.Sample(name + ": " + t.desc())
					}
				}
			}
		}(w)
	}
	wg.Wait()
	st.Visited = visited.Load()
	st.Full = st.Visited == n
	st.Wall = time.Since(t0).Seconds()
	c.mu.Lock()
	c.spaces = append(c.spaces, st)
	if timeout.Load() {
		c.capped = true
	}
	if best != nil {
		c.fail = best
	}
	c.mu.Unlock()
}

// ---------------------------------------------------------------- BFS

// Inst is one live execution: the real object plus its reference model.
type Inst interface {
	// Apply performs op on both and compares the step's results; false: op not enabled here.
	Apply(t *T, op int) bool
	// Check evaluates the invariants in the current state.
	Check(t *T)
	// Key is the canonical form of the (implementation and model) state.
	Key() string
}

type System struct {
	Name  string
	NOps  int
	Depth int
	Max   int64 // cap on states (0: none)
	New   func() Inst
	OpStr func(op int) string
}

func (s *System) histStr(h []int) string {
	var p []string
	for _, o := range h {
		p = append(p, s.OpStr(o))
	}
	return s.Name + ": " + strings.Join(p, "; ")
}

// BFS explores every operation sequence up to Depth, merging states with equal Key.
func (c *Ctx) BFS(s *System) {
	c.spaceIdx++
	runHist := func(t *T, h []int) (Inst, bool) {
		t.hist = h
		t.Desc(func() string { return s.histStr(t.hist) })
		in := s.New()
		for _, o := range h {
			t.ops++
			if !in.Apply(t, o) {
				return in, false
			}
		}
		return in, true
	}
	if c.only != nil {
		if c.only.Space == s.Name {
			c.onlyFound = true
			t := c.newT(0)
			if fl := c.runCase(t, s.Name, c.only.Index, func(t *T) {
				in, _ := runHist(t, c.only.History)
				in.Check(t)
			}); fl != nil {
				c.fail = fl
			}
		}
		return
	}
	if c.stopped() {
		return
	}
	st := &SpaceStat{Name: s.Name, Kind: "breadth-first state search"}
	t0 := time.Now()
	type node struct{ h []byte }
	seen := newSeen()
	var frontier []node
	t := c.newT(0)
	if fl := c.runCase(t, s.Name, 0, func(t *T) {
		in, _ := runHist(t, nil)
		seen.add(in.Key())
		in.Check(t)
		t.states++
		t.traces++
	}); fl != nil && !c.isKnown(fl) {
		c.fail = fl
		return
	}
	c.merge(st, t)
	frontier = []node{{nil}}
	st.Levels = append(st.Levels, 1)
	var total int64 = 1
	full := true
	var best *Failure
	for d := 0; d < s.Depth && len(frontier) > 0 && best == nil; d++ {
		nxt := make([][]node, c.workers)
		var cur atomic.Int64
		var fmu sync.Mutex
		var stop atomic.Bool
		var capHit atomic.Bool
		var tot atomic.Int64
		tot.Store(total)
		var wg sync.WaitGroup
		for w := 0; w < c.workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				t := c.newT(w)
				defer c.merge(st, t)
				for {
					i := cur.Add(1) - 1
					if i >= int64(len(frontier)) || stop.Load() {
						return
					}
					if time.Now().After(c.deadline) || (s.Max > 0 && tot.Load() >= s.Max) {
						capHit.Store(true)
						return
					}
					base := frontier[i].h
					for op := 0; op < s.NOps; op++ {
						h := make([]int, 0, len(base)+1)
						for _, x := range base {
							h = append(h, int(x))
						}
						h = append(h, op)
						fresh := false
						enabled := true
						fl := c.runCase(t, s.Name, i, func(t *T) {
							in, ok := runHist(t, h)
							enabled = ok
							if !ok {
								return
							}
							t.traces++
							if seen.add(in.Key()) {
								fresh = true
								in.Check(t)
							}
						})
						if fl != nil {
							if c.isKnown(fl) {
								continue
							}
							fmu.Lock()
							if best == nil {
								best = fl
							}
							fmu.Unlock()
							stop.Store(true)
							return
						}
						if enabled && fresh {
							t.states++
							tot.Add(1)
							nh := make([]byte, len(base)+1)
							copy(nh, base)
							nh[len(base)] = byte(op)
							nxt[w] = append(nxt[w], node{nh})
							if w == 0 && t.samples == 0 && d >= 2 {
								t.samples++
								c.Sample(s.histStr(h))
							}
						}
					}
				}
			}(w)
		}
		wg.Wait()
		total = tot.Load()
		if capHit.Load() {
			full = false
			c.capped = true
		}
		frontier = frontier[:0]
		for _, x := range nxt {
			frontier = append(frontier, x...)
		}
		sort.Slice(frontier, func(i, j int) bool { return string(frontier[i].h) < string(frontier[j].h) })
		st.Levels = append(st.Levels, int64(len(frontier)))
		st.Depth = d + 1
		if capHit.Load() {
			break
		}
	}
	st.Size, st.Visited, st.Full = total, total, full && best == nil
	st.Wall = time.Since(t0).Seconds()
	c.mu.Lock()
	c.spaces = append(c.spaces, st)
	if best != nil {
		c.fail = best
	}
	c.mu.Unlock()
}

type seenSet struct {
	sh [256]struct {
		sync.Mutex
		m map[[2]uint64]struct{}
	}
}

func newSeen() *seenSet {
	s := &seenSet{}
	for i := range s.sh {
		s.sh[i].m = map[[2]uint64]struct{}{}
	}
	return s
}

var hseed2 = maphash.MakeSeed()

func (s *seenSet) add(k string) bool {
	h := [2]uint64{maphash.String(hseed, k), maphash.String(hseed2, k)}
	x := &s.sh[h[0]&255]
	x.Lock()
	_, ok := x.m[h]
	if !ok {
		x.m[h] = struct{}{}
	}
	x.Unlock()
	return !ok
}

// ---------------------------------------------------------------- mixed radix decoding

// Radix decodes index i into digits for the given radices (last digit fastest).
func Radix(i int64, radices []int, out []int) []int {
	out = out[:0]
	for range radices {
		out = append(out, 0)
	}
	for k := len(radices) - 1; k >= 0; k-- {
		out[k] = int(i % int64(radices[k]))
		i /= int64(radices[k])
	}
	return out
}

func Product(radices []int) int64 {
	n := int64(1)
	for _, r := range radices {
		n *= int64(r)
	}
	return n
}

func Pow(b, e int) int64 {
	n := int64(1)
	for i := 0; i < e; i++ {
		n *= int64(b)
	}
	return n
}

func Digits(i int64, base, n int, out []int) []int {
	out = out[:0]
	for k := 0; k < n; k++ {
		out = append(out, int(i%int64(base)))
		i /= int64(base)
	}
	return out
}

// ---------------------------------------------------------------- evidence and child main

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type knownEntry struct {
	Property  string `json:"property"`
	Signature string `json:"signature"`
	What      string `json:"what"`
}

func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return m
	}
	var doc struct {
		Known []knownEntry `json:"known"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	for _, k := range doc.Known {
		if k.Property == id {
			m[k.Signature] = k.What
		}
	}
	return m
}

func newCtx(p *Prop) *Ctx {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	limit := 420 * time.Second
	if tier == "thorough" {
		limit = 2 * time.Hour
	}
	if s := os.Getenv("VERIF_DEADLINE_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	c := &Ctx{P: p, Tier: tier, Seed: seed, deadline: time.Now().Add(limit), workers: w,
		known: loadKnown(p.ID), knownN: map[string]int64{}, knownEx: map[string]string{},
		obs: newHashSet(4000000), beats: make([]beat, 64)}
	return c
}

var hangLimit = 150 * time.Second

func init() {
	if n, err := strconv.Atoi(os.Getenv("VERIF_HANG_S")); err == nil && n > 0 {
		hangLimit = time.Duration(n) * time.Second
	}
}

func (c *Ctx) watchdog() {
	for {
		time.Sleep(2 * time.Second)
		now := time.Now().UnixNano()
		for w := range c.beats {
			s := c.beats[w].start.Load()
			if s != 0 && now-s > int64(hangLimit) {
				fmt.Fprintf(os.Stderr, "HANG worker %d space %d index %d: no progress for %v\n", w, c.spaceIdx, c.beats[w].idx.Load(), hangLimit)
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				os.Stderr.Write(buf[:n])
				os.Exit(97)
			}
		}
	}
}

func mmapJournal(path string) []byte {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil
	}
	defer f.Close()
	if err := f.Truncate(64 * 16); err != nil {
		return nil
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, 64*16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return b
}

type childResult struct {
	Fail     *Failure               `json:"fail"`
	Coverage map[string]interface{} `json:"coverage"`
	Known    []string               `json:"known"`
	Assum    []string               `json:"assumptions"`
}

// childMain runs the exploration and writes its result to out.
func childMain(id, out, journal string, only *Failure) int {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	debug.SetGCPercent(200)
	debug.SetMaxStack(256 << 20)
	c := newCtx(p)
	c.only = only
	if journal != "" {
		c.journal = mmapJournal(journal)
	}
	go c.watchdog()
	p.Run(c)
	res := childResult{Fail: c.fail, Assum: p.Assum}
	if c.fail != nil && only == nil {
		// re-run the failing case five times in this process
		n := 0
		for k := 0; k < 5; k++ {
			cc := newCtx(p)
			cc.only = c.fail
			p.Run(cc)
			if cc.fail != nil {
				n++
			}
		}
		c.fail.Repro = fmt.Sprintf("%d of 5 isolated re-runs", n)
	}
	full := !c.capped && c.fail == nil
	for _, s := range c.spaces {
		full = full && s.Full
	}
	for sig, n := range c.knownN {
		res.Known = append(res.Known, fmt.Sprintf("%s [%s, %d cases, e.g. %s]", c.known[sig], sig, n, c.knownEx[sig]))
	}
	sort.Strings(res.Known)
	res.Coverage = map[string]interface{}{
		"states":                        c.states,
		"transitions":                   c.transitions,
		"traces_validated_against_impl": c.traces,
		"distinct_observed_results":     c.obs.n.Load(),
		"exhaustive":                    full,
		"spaces":                        c.spaces,
		"samples":                       c.samples,
		"rule":                          p.Rule,
		"deviation_caps":                map[string]interface{}{"deadline_hit": c.capped},
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}
