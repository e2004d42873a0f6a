package main

import (
	"fmt"
	"math"
	"os"
	"strings"

	geo "github.com/hzw456/go-geo"
)

// ------------------------------------------------------------------ universes

func uScatter() *universe {
	u := &universe{name: "scatter"}
	for i, p := range [][2]float64{{0, 0}, {4, 1}, {1, 3}, {3, 4}, {-2, 2}, {5, -1}, {2, 2}} {
		u.addPoint(fmt.Sprintf("p%d", i), p[0], p[1])
	}
	return u.finish()
}

func uLine() *universe { // collinear: every box has area 0
	u := &universe{name: "collinear"}
	for i := 0; i < 7; i++ {
		u.addPoint(fmt.Sprintf("p%d", i), float64(i), 0)
	}
	return u.finish()
}

func uSame() *universe { // coincident objects with different ids
	u := &universe{name: "coincident"}
	for i := 0; i < 7; i++ {
		x := 1.0
		if i >= 5 {
			x = 2
		}
		u.addPoint(fmt.Sprintf("p%d", i), x, 1)
	}
	return u.finish()
}

// uMixed: all kinds of geometry, uncomparable values, overlapping and nested boxes.
func uMixed() *universe {
	u := &universe{name: "mixed"}
	u.addRect("a", 0, 0, 4, 4)
	u.addPoint("b", 1, 1)
	u.addLine("c", geo.Point{X: 3, Y: 0}, geo.Point{X: 6, Y: 2})
	u.add("d", map[string]interface{}{"idx": 3}, geo.MultiPoint{{X: -1, Y: 5}, {X: 2, Y: 6}}, geo.Point{X: -1, Y: 5}, geo.Point{X: 2, Y: 6})
	u.addRect("e", 1, 1, 2, 2)
	u.add("f", []int{5}, geo.MultiLineString{{{X: -3, Y: 0}, {X: -2, Y: 1}}, {{X: -3, Y: 3}, {X: -3, Y: 2}}}, geo.Point{X: -3, Y: 0}, geo.Point{X: -2, Y: 3})
	u.add("g", 6, geo.MultiPolygon{{{{X: 5, Y: 5}, {X: 6, Y: 5}, {X: 5, Y: 6}, {X: 5, Y: 5}}}}, geo.Point{X: 5, Y: 5}, geo.Point{X: 6, Y: 6})
	return u.finish()
}

// uIDs: several objects per id, near and far from each other.
func uIDs() *universe {
	u := &universe{name: "shared-ids"}
	u.addPoint("a", 0, 0)
	u.addPoint("b", 1, 0)
	u.addPoint("a", 5, 5)
	u.addLine("b", geo.Point{X: 4, Y: 4}, geo.Point{X: 6, Y: 5})
	u.addPoint("", 0, 5)
	u.addPoint("a", 0, 1)
	u.addPoint("A ", 3, 2)
	return u.finish()
}

func uTwins() *universe { // pairs differing in one field only
	u := &universe{name: "twins"}
	u.addPoint("a", 1, 1)
	u.addPoint("a", 1, 1) // differs in Properties
	u.addPoint("b", 1, 1)
	u.addPoint("a", 2, 1)
	u.addLine("c", geo.Point{X: 1, Y: 1}, geo.Point{X: 2, Y: 1})
	u.addLine("c", geo.Point{X: 2, Y: 1}, geo.Point{X: 1, Y: 1})
	u.addPoint("e", 7, 7)
	return u.finish()
}

// uScales: degrees with differences of 1e-9 beside objects a billion wide.
func uScales() *universe {
	u := &universe{name: "scales"}
	u.addPoint("a", 113.25, 23.5)
	u.addPoint("b", 113.25+1e-9, 23.5)
	u.addPoint("c", 113.25, 23.5+3e-9)
	u.addRect("d", -1e9, -1e9, 1e9, 1e9)
	u.addPoint("e", -1e9, 1e-9)
	u.addLine("f", geo.Point{X: 0, Y: 0}, geo.Point{X: 1e-300, Y: 2e-9})
	u.addPoint("g", 113.25+2e-5, 23.5-1e-5)
	return u.finish()
}

// uMoves: geometries of different size and position under the same id (an upsert moves, grows or
// shrinks the object).
func uMoves() *universe {
	u := &universe{name: "moves"}
	u.addRect("a", 0, 0, 4, 4)
	u.addPoint("a", 1, 2)
	u.addRect("b", 3, 3, 6, 5)
	u.addRect("a", 0, 0, 4, 2)
	u.addPoint("b", 6, 5)
	u.addLine("a", geo.Point{X: 1, Y: 1}, geo.Point{X: 9, Y: 1})
	u.addPoint("c", 2, 2)
	return u.finish()
}

// uDecimals: coordinates that are not binary fractions; boxes with common borders.
func uDecimals() *universe {
	u := &universe{name: "decimals"}
	u.addRect("a", 0.1, 0.1, 0.3, 0.7)
	u.addRect("b", 0.3, 0.1, 0.7, 0.2)
	u.addPoint("c", 0.3, 0.7)
	u.addRect("d", 0.7, 0.7, 116.397428, 1.1)
	u.addPoint("e", 116.397428, 39.90923)
	u.addLine("f", geo.Point{X: -0.1, Y: 0.1}, geo.Point{X: 0.1, Y: 0.1})
	u.addRect("g", 0.2, 0.7, 0.3, 0.9)
	return u.finish()
}

// uTyped: the same id and geometry, and properties that print alike but differ in type.
func uTyped() *universe {
	u := &universe{name: "typed", typed: true}
	for _, p := range []interface{}{1, "1", int64(1), 1.0, []int{1}, "[1]", [1]int{1}} {
		u.add("a", p, geo.Point{X: 2, Y: 1}, geo.Point{X: 2, Y: 1})
	}
	return u.finish()
}

// everyCall: all sequences of up to depth calls out of the whole editing interface, generated ids
// included, from trees of several sizes; the property is checked after every call, or only at
// the end.
func everyCall(c *Ctx, check func(ti *treeInst, t *T)) {
	base := uIDs().thin(24, 8)
	ops := []rop{{opInsert, 0, 0}, {opInsert, 1, 0}, {opInsert, 3, 0}, {opInsertRand, 0, 0}, {opInsertRand, 2, 0}, {opDelete, 0, 0}, {opDelete, 3, 0}, {opDeleteCmp, 2, 0}, {opDeleteID, 0, 0}, {opDeleteID, 4, 0},
		{opUpsert, 2, 0}, {opUpsert, 4, 0}, {opUpsert2, 1, 2}, {opDeleteRand, 0, 0}, {opDeleteRandID, 0, 0}, {opUpsertRand, 2, 0}}
	starts := []struct {
		cfg      rcfg
		n        int
		bulk     bool
		everyOne bool
	}{{rcfg{1, 2}, 0, false, true}, {rcfg{1, 2}, 5, false, true}, {rcfg{2, 4}, 7, true, true}, {rcfg{1, 2}, 7, true, false}, {rcfg{1, 3}, 6, false, false}, {rcfg{2, 4}, 4, false, true}}
	for depth := 1; depth <= Pick(c, 4, 5); depth++ {
		depth := depth
		c.Enum(fmt.Sprintf("all sequences of %d calls", depth), int64(len(starts))*Pow(len(ops), depth), func(i int64, t *T) {
			st := starts[i%int64(len(starts))]
			dg := Digits(i/int64(len(starts)), len(ops), depth, nil)
			step := 0
			t.Desc(func() string {
				s := fmt.Sprintf("min %d max %d, first %d objects (bulk %v)", st.cfg.min, st.cfg.max, st.n, st.bulk)
				for k, o := range dg {
					if k == step {
						s += " ->"
					}
					s += "; " + base.opStr(ops[o])
				}
				return s
			})
			u := *base
			u.objs = append([]robj{}, base.objs...)
			u.byID = map[string]int{}
			ti := &treeInst{u: &u, cnt: make([]int, len(u.objs))}
			var sps []geo.Spatial
			for k := 0; k < st.n; k++ {
				sps = append(sps, u.fresh(k))
				ti.cnt[k]++
				ti.size++
			}
			if st.bulk {
				ti.tr = geo.NewMinMaxTree(st.cfg.min, st.cfg.max, sps...)
			} else {
				ti.tr = geo.NewMinMaxTree(st.cfg.min, st.cfg.max)
				for _, sp := range sps {
					ti.tr.Insert(sp)
				}
			}
			if st.everyOne {
				check(ti, t)
			}
			for k, o := range dg {
				step = k
				ti.apply(t, ops[o])
				if st.everyOne {
					ti.checkContents(t, "after "+base.opStr(ops[o]))
					check(ti, t)
				}
			}
			ti.checkContents(t, "at the end")
			check(ti, t)
			t.Trace()
		})
	}
}

// ------------------------------------------------------------------ breadth-first search

type rcfg struct{ min, max int }

type rsys struct {
	u        *universe
	n        int // objects used
	cfg      rcfg
	bulk     []int // numbers of objects the constructor may be called with
	copies   int   // max copies of one object (1: set mode)
	kinds    []int
	depth    int
	max      int64
	maxItems int
	check    func(ti *treeInst, t *T)
}

type rinst struct {
	treeInst
	s     *rsys
	ops   []rop
	steps int
}

func (ri *rinst) Apply(t *T, op int) bool {
	o := ri.ops[op]
	if o.kind == opLoad {
		if ri.steps > 0 {
			return false
		}
		var sps []geo.Spatial
		for k := 0; k < o.a; k++ {
			sps = append(sps, ri.u.fresh(k))
			ri.cnt[k]++
			ri.size++
		}
		ri.tr = geo.NewMinMaxTree(ri.s.cfg.min, ri.s.cfg.max, sps...)
		ri.checkContents(t, ri.u.opStr(o))
		ri.steps++
		return true
	}
	ri.steps++
	if o.kind == opInsert && (ri.cnt[o.a] >= ri.s.copies || ri.size >= ri.s.maxItems) {
		return false
	}
	if (o.kind == opUpsert || o.kind == opUpsert2) && ri.size >= ri.s.maxItems {
		return false
	}
	ri.apply(t, o)
	ri.checkContents(t, "after "+ri.u.opStr(o))
	return true
}
func (ri *rinst) Check(t *T)  { ri.s.check(&ri.treeInst, t) }
func (ri *rinst) Key() string { return ri.key() }

func (s *rsys) run(c *Ctx) {
	if s.copies == 0 {
		s.copies = 1
	}
	if s.maxItems == 0 {
		s.maxItems = 100
	}
	if s.depth == 0 {
		s.depth = 64
	}
	var ops []rop
	for _, k := range s.kinds {
		for a := 0; a < s.n; a++ {
			switch k {
			case opUpsert2:
				if a+1 < s.n {
					ops = append(ops, rop{k, a, a + 1})
				}
			case opDeleteID:
				first := true
				for b := 0; b < a; b++ {
					if s.u.objs[b].sp.ID == s.u.objs[a].sp.ID {
						first = false
					}
				}
				if first {
					ops = append(ops, rop{k, a, 0})
				}
			default:
				ops = append(ops, rop{k, a, 0})
			}
		}
	}
	for _, b := range s.bulk {
		ops = append(ops, rop{opLoad, b, 0})
	}
	var kn []string
	for _, k := range s.kinds {
		kn = append(kn, []string{"ins", "del", "delcmp", "delid", "ups", "ups2", "load", "delcmpid"}[k])
	}
	name := fmt.Sprintf("%s/n%d/min%d-max%d/load%v/copies%d/items%d/%s", s.u.name, s.n, s.cfg.min, s.cfg.max, s.bulk, s.copies, s.maxItems, strings.Join(kn, "+"))
	c.BFS(&System{
		Name: name, NOps: len(ops), Depth: s.depth, Max: s.max,
		OpStr: func(o int) string { return s.u.opStr(ops[o]) },
		New: func() Inst {
			ri := &rinst{s: s, ops: ops}
			ri.u = s.u
			ri.cnt = make([]int, len(s.u.objs))
			ri.tr = geo.NewMinMaxTree(s.cfg.min, s.cfg.max)
			return ri
		},
	})
	if os.Getenv("MC_VERBOSE") != "" && len(c.spaces) > 0 {
		st := c.spaces[len(c.spaces)-1]
		fmt.Fprintf(os.Stderr, "%s: states=%d depth=%d full=%v %.1fs\n", name, st.Visited, st.Depth, st.Full, st.Wall)
	}
}

// ------------------------------------------------------------------ structured histories

// layouts of n objects for the larger histories
var layouts = []struct {
	name string
	at   func(i, n int) (x, y, w, h float64)
}{
	{"diagonal", func(i, n int) (x, y, w, h float64) { return float64(i), float64(i), 0, 0 }},
	{"grid", func(i, n int) (x, y, w, h float64) {
		s := int(math.Ceil(math.Sqrt(float64(n))))
		return float64(i % s), float64(i / s), 0, 0
	}},
	{"clusters", func(i, n int) (x, y, w, h float64) {
		return float64(i%3)*100 + float64(i/3%4), float64(i%3)*-50 + float64(i/12), 0, 0
	}},
	{"row", func(i, n int) (x, y, w, h float64) { return float64(i), 0, 0, 0 }},
	{"column", func(i, n int) (x, y, w, h float64) { return 0, -float64(i), 0, 0 }},
	{"coincident", func(i, n int) (x, y, w, h float64) { return 3, 4, 0, 0 }},
	{"nested", func(i, n int) (x, y, w, h float64) {
		return -float64(i), -float64(i) / 2, 2 * float64(i), float64(i)
	}},
	{"bars", func(i, n int) (x, y, w, h float64) { return float64(i * 2), float64(i % 5), 3, 0.5 }},
	{"scatter", func(i, n int) (x, y, w, h float64) {
		return float64((i * 37) % 101), float64((i*53)%89) - 40, float64(i%4) / 4, float64(i%3) / 2
	}},
	{"lonlat", func(i, n int) (x, y, w, h float64) {
		return 113.25 + float64((i*29)%64)/1024, 23.5 + float64((i*17)%32)/1024, 1.0 / 4096, 0
	}},
	{"millimetres", func(i, n int) (x, y, w, h float64) {
		return -71.5 + float64((i*31)%97)*1e-8, -33.25 + float64((i*19)%61)*1e-8, float64(i%3) * 1e-9, 0
	}},
	{"magnitudes", func(i, n int) (x, y, w, h float64) {
		m := math.Pow(10, float64(i%19-9))
		return float64(i%7-3) * m, float64(i%5-2) * m, float64(i%2) * m, float64(i%3) * m / 8
	}},
}

var layoutCache = map[string]*universe{}

func layoutUniverse(l, n int) *universe {
	u := &universe{name: fmt.Sprintf("%s%d", layouts[l].name, n)}
	for i := 0; i < n; i++ {
		x, y, w, h := layouts[l].at(i, n)
		id := fmt.Sprintf("o%d", i)
		if w == 0 && h == 0 {
			u.addPoint(id, x, y)
		} else {
			u.addLine(id, geo.Point{X: x, Y: y}, geo.Point{X: x + w, Y: y + h})
		}
	}
	return u.finish()
}

// thin keeps at most q queries and p probes.
func (u *universe) thin(q, p int) *universe {
	if len(u.queries) > q {
		var r []rbox
		for i := 0; i < q; i++ {
			r = append(r, u.queries[i*len(u.queries)/q])
		}
		u.queries = r
	}
	if len(u.probes) > p {
		var r []geo.Point
		for i := 0; i < p; i++ {
			r = append(r, u.probes[i*len(u.probes)/p])
		}
		u.probes = r
	}
	return u
}

func coprime(a, n int) bool {
	for n != 0 {
		a, n = n, a%n
	}
	return a == 1
}

func strides(n int) []int {
	var s []int
	for a := 1; a < n; a++ {
		if coprime(a, n) {
			s = append(s, a)
		}
	}
	if len(s) == 0 {
		s = []int{1}
	}
	return s
}

type hist struct {
	lay, n      int
	cfg         rcfg
	ins, del    int // strides of the insertion and deletion order
	bulk        int // objects loaded by the constructor
	reinsert    bool
	deleteByKey int
}

func (h hist) String() string {
	return fmt.Sprintf("layout %s, %d objects, min %d max %d, first %d bulk loaded, insertion stride %d, deletion stride %d, delete kind %d, reinsert %v", layouts[h.lay].name, h.n, h.cfg.min, h.cfg.max, h.bulk, h.ins, h.del, h.deleteByKey, h.reinsert)
}

// runHist: load, insert, delete (and possibly reinsert); check after every step.
func (h hist) run(t *T, u *universe, check func(ti *treeInst, t *T)) {
	step := 0
	last := ""
	t.Desc(func() string { return fmt.Sprintf("%v; step %d: %s", h, step, last) })
	ti := &treeInst{u: u, cnt: make([]int, len(u.objs))}
	var sps []geo.Spatial
	order := func(stride, i int) int { return (i * stride) % h.n }
	for i := 0; i < h.bulk; i++ {
		k := order(h.ins, i)
		sps = append(sps, u.fresh(k))
		ti.cnt[k]++
		ti.size++
	}
	last = "construct"
	ti.tr = geo.NewMinMaxTree(h.cfg.min, h.cfg.max, sps...)
	ti.checkContents(t, last)
	check(ti, t)
	do := func(o rop) {
		step++
		last = u.opStr(o)
		ti.apply(t, o)
		if h.n <= 200 || step%7 == 0 {
			ti.checkContents(t, "after "+last)
		}
		if step%max(5, h.n/15) == 0 || ti.size < 4 {
			check(ti, t)
		}
	}
	for i := h.bulk; i < h.n; i++ {
		do(rop{opInsert, order(h.ins, i), 0})
	}
	check(ti, t)
	kind := []int{opDelete, opDeleteCmp, opDeleteID}[h.deleteByKey]
	for i := 0; i < h.n; i++ {
		k := (i*h.del + h.n/2) % h.n
		do(rop{kind, k, 0})
		if i%7 == 3 { // absent now
			do(rop{kind, k, 0})
		}
		if h.reinsert && i%3 == 2 {
			j := ((i-2)*h.del + h.n/2) % h.n
			do(rop{opInsert, j, 0})
		}
	}
	check(ti, t)
	t.Trace()
	t.Obs(hashStr(fmt.Sprint(ti.tr.Depth(), ti.cnt, len(ti.tr.GetAllBoundingBoxes()))))
	t.Out(fmt.Sprintf("final-size-%d", min(ti.size, 3)))
}

func (c *Ctx) histSpace(name string, hs []hist, check func(ti *treeInst, t *T)) {
	us := map[[2]int]*universe{}
	for _, h := range hs {
		k := [2]int{h.lay, h.n}
		if us[k] == nil {
			us[k] = layoutUniverse(h.lay, h.n).thin(40, 12)
		}
	}
	c.Enum(name, int64(len(hs)), func(i int64, t *T) {
		h := hs[i]
		h.run(t, us[[2]int{h.lay, h.n}], check)
	})
}

func pickStrides(n, m int) []int {
	s := strides(n)
	if len(s) <= m {
		return s
	}
	if m == 1 {
		return s[len(s)/3 : len(s)/3+1]
	}
	var r []int
	for i := 0; i < m; i++ {
		r = append(r, s[i*(len(s)-1)/(m-1)])
	}
	return r
}

// histFamily: sizes x configurations x layouts x orders.
func histFamily(sizes []int, cfgs []rcfg, nIns, nDel int, bulks bool, kinds []int) []hist {
	var hs []hist
	for _, n := range sizes {
		for _, cf := range cfgs {
			for l := range layouts {
				for _, a := range pickStrides(n, nIns) {
					for _, d := range pickStrides(n, nDel) {
						for _, k := range kinds {
							bl := []int{0}
							if bulks {
								bl = []int{0, n / 2, n}
							}
							for _, b := range bl {
								hs = append(hs, hist{lay: l, n: n, cfg: cf, ins: a, del: d, bulk: b, reinsert: (a+d+b)%2 == 0, deleteByKey: k})
							}
						}
					}
				}
			}
		}
	}
	return hs
}

// ------------------------------------------------------------------ properties

var rtreeAssum = []string{
	"coordinates are finite and at most 1e9 in magnitude",
	"1 <= MinChildren and 2*MinChildren <= MaxChildren+1 (the usual R-tree precondition; the library's own constructors satisfy it)",
	"the tree is used from one goroutine at a time (concurrent reads: C02)",
	"beyond the closed state spaces, histories are limited to the enumerated families of sizes, layouts and orders",
}

const rtreeRule = "breadth-first search over the real tree: every operation of the alphabet is applied in every reached state (states identified by a canonical form of the whole tree including sharing of backing arrays); after each operation contents and Size are compared with a multiset model and in each new state the property's queries are compared with a scan of the model. Larger trees: exhaustive families size x configuration x layout x insertion order x deletion order, checked along the way."

func rtreeSpaces(c *Ctx, kinds []int, us []*universe, check func(ti *treeInst, t *T), hk []int) {
	cfgs := []rcfg{{1, 2}, {1, 3}, {2, 4}, {2, 3}}
	for _, u := range us {
		for _, cf := range cfgs {
			n := Pick(c, 5, 6)
			if cf == (rcfg{1, 2}) && u.name == "collinear" {
				n = Pick(c, 4, 5)
			}
			if cf.max >= 4 {
				n = Pick(c, 6, 7)
			}
			s := &rsys{u: u, n: n, cfg: cf, kinds: kinds, check: check, max: Pick[int64](c, 60000, 1500000)}
			for b := 1; b <= n; b++ {
				s.bulk = append(s.bulk, b)
			}
			s.run(c)
		}
		// several copies of the same object
		s := &rsys{u: u, n: 3, cfg: rcfg{1, 2}, kinds: kinds, copies: 2, check: check, max: Pick[int64](c, 40000, 800000), maxItems: 5}
		s.run(c)
	}
	everyCall(c, check)
	hs := histFamily(Pick(c, []int{8, 13, 21, 34}, []int{7, 8, 9, 11, 13, 16, 21, 27, 34, 50}), []rcfg{{1, 2}, {1, 3}, {2, 4}, {2, 5}, {3, 6}, {2, 10}}, Pick(c, 4, 8), Pick(c, 4, 8), true, hk)
	c.histSpace("histories", hs, check)
	big := histFamily(Pick(c, []int{65, 128}, []int{64, 125, 200, 400}), []rcfg{{1, 2}, {2, 4}, {4, 8}, {10, 32}}, Pick(c, 2, 3), Pick(c, 2, 3), true, hk[:1])
	c.histSpace("large-histories", big, check)
	huge := histFamily(Pick(c, []int{300, 1030}, []int{257, 300, 513, 1030, 2050}), []rcfg{{2, 4}, {10, 32}, {25, 50}}, 1, 1, true, hk[:1])
	c.histSpace("huge-histories", huge, check)
}

func init() {
	ins := []int{opInsert, opDelete, opUpsert}
	reg := func(id string, kinds []int, us func() []*universe, hk []int, check func(ti *treeInst, t *T)) {
		register(&Prop{ID: id, Rule: rtreeRule, Assum: rtreeAssum, Run: func(c *Ctx) {
			rtreeSpaces(c, kinds, us(), check, hk)
		}})
	}
	reg("R01", ins, func() []*universe {
		return []*universe{uScatter(), uMixed(), uLine(), uSame(), uScales(), uMoves(), uDecimals()}
	}, []int{0},
		func(ti *treeInst, t *T) { ti.checkSearch(t) })
	reg("R02", []int{opInsert, opDelete, opDeleteCmp, opDeleteCmpID}, func() []*universe { return []*universe{uTwins(), uMixed(), uTyped(), uScatter(), uIDs()} }, []int{0, 1},
		func(ti *treeInst, t *T) { ti.checkContents(t, "state") })
	reg("R03", []int{opInsert, opDeleteID, opUpsert, opUpsert2}, func() []*universe { return []*universe{uIDs(), uTwins(), uSame(), uMoves()} }, []int{2},
		func(ti *treeInst, t *T) { ti.checkIDs(t) })
	reg("R04", []int{opInsert, opDelete, opUpsert}, func() []*universe {
		return []*universe{uScatter(), uMixed(), uLine(), uSame(), uScales(), uMoves(), uDecimals()}
	}, []int{0},
		func(ti *treeInst, t *T) { ti.checkNN(t) })
	reg("R06", ins, func() []*universe {
		return []*universe{uScatter(), uMixed(), uLine(), uSame(), uScales(), uMoves(), uDecimals()}
	}, []int{0},
		func(ti *treeInst, t *T) { ti.checkShape(t) })
}
