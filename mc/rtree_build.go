package main

// R05: constructors and generated ids.

import (
	"fmt"
	"reflect"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	geo "github.com/hzw456/go-geo"
)

// frozen runs f while the clock stands still (testing/synctest: time only advances when every
// goroutine of the bubble is blocked), the adversarial schedule for ids made from the time.
//
// synctest wants a *testing.T; one is kept running for the purpose.
var (
	frozenOnce sync.Once
	frozenReq  = make(chan func(t *testing.T))
)

func frozen(f func()) {
	frozenOnce.Do(func() {
		go testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "frozen", F: func(t *testing.T) {
			for req := range frozenReq {
				req(t)
			}
		}}}, nil, nil)
	})
	var rec interface{}
	ran, moved := false, false
	done := make(chan bool)
	frozenReq <- func(t *testing.T) {
		defer close(done)
		synctest.Test(t, func(t *testing.T) {
			defer func() { rec = recover() }()
			a := time.Now()
			f()
			ran, moved = true, !time.Now().Equal(a)
		})
	}
	<-done
	switch {
	case rec != nil:
		panic(rec)
	case !ran || moved:
		panic(fmt.Sprintf("the clock did not stand still: ran %v, moved %v", ran, moved))
	}
}

// matchGeoms checks that the tree stores exactly the given geometries under ids that are
// pairwise different and not empty.
func matchGeoms(t *T, tr *geo.Rtree, want []geo.Geometry, what string) {
	t.Op(2)
	if tr.Size() != len(want) {
		t.Failf("size", "%s: Size() = %d after %d objects", what, tr.Size(), len(want))
	}
	got := tr.SearchIntersect(geo.NewBox(-1e12, -1e12, 1e12, 1e12))
	if len(got) != len(want) {
		t.Failf("contents", "%s: %d objects stored, %d given", what, len(got), len(want))
	}
	ids := map[string]bool{}
	used := make([]bool, len(want))
	for _, sp := range got {
		if sp.ID == "" || ids[sp.ID] {
			t.Failf("ids", "%s: generated id %q is empty or used twice; %d objects", what, sp.ID, len(want))
		}
		ids[sp.ID] = true
		hit := false
		for i, g := range want {
			if !used[i] && reflect.DeepEqual(g, sp.Geom) {
				used[i], hit = true, true
				break
			}
		}
		if !hit {
			t.Failf("geom", "%s: stored geometry %v was not given", what, sp.Geom)
		}
		if r := tr.SearchBySpatialID(sp.ID); len(r) != 1 {
			t.Failf("search-id", "%s: SearchBySpatialID(%q) finds %d objects", what, sp.ID, len(r))
		}
	}
}

func init() {
	register(&Prop{ID: "R05", Rule: "every number of objects x every constructor and configuration x layout: contents, Size, box searches, nearest neighbours and node boxes compared with a scan, again after each of a sequence of updates; generated ids explored with the clock standing still (synctest) over all insert/delete sequences up to a depth", Assum: rtreeAssum, Run: func(c *Ctx) {
		full := func(ti *treeInst, t *T, what string) {
			ti.checkContents(t, what)
			ti.checkSearch(t)
			ti.checkIDs(t)
			ti.checkShape(t)
			ti.checkNN(t)
		}
		cfgs := []rcfg{{1, 2}, {1, 3}, {2, 3}, {2, 4}, {2, 5}, {3, 6}, {3, 7}, {4, 8}, {2, 10}, {5, 9}, {10, 25}}
		maxN := Pick(c, 70, 260)
		us := make([][]*universe, len(layouts))
		for l := range layouts {
			for n := 0; n <= maxN; n++ {
				us[l] = append(us[l], layoutUniverse(l, n+2).thin(16, 4))
			}
		}
		// 0: NewMinMaxTree with each configuration; then NewTree, NewTreeWith
		nc := len(cfgs) + 2
		c.Enum("constructors", Product([]int{maxN + 1, nc, len(layouts)}), func(i int64, t *T) {
			d := Radix(i, []int{maxN + 1, nc, len(layouts)}, nil)
			n, k, l := d[0], d[1], d[2]
			u := us[l][n]
			what := "NewTree"
			t.Desc(func() string { return fmt.Sprintf("%s, %d objects, layout %s", what, n, layouts[l].name) })
			ti := &treeInst{u: u, cnt: make([]int, len(u.objs))}
			var sps []geo.Spatial
			for j := 0; j < n; j++ {
				sps = append(sps, u.fresh(j))
				ti.cnt[j]++
				ti.size++
			}
			switch {
			case k < len(cfgs):
				what = fmt.Sprintf("NewMinMaxTree(%d,%d)", cfgs[k].min, cfgs[k].max)
				ti.tr = geo.NewMinMaxTree(cfgs[k].min, cfgs[k].max, sps...)
				if ti.tr.MinChildren != cfgs[k].min || ti.tr.MaxChildren != cfgs[k].max {
					t.Failf("config", "%s made a tree with %d..%d children", what, ti.tr.MinChildren, ti.tr.MaxChildren)
				}
			case k == len(cfgs):
				ti.tr = geo.NewTree(sps...)
			default:
				what = "NewTreeWith"
				ti.tr = geo.NewTreeWith(sps...)
			}
			for j := range sps {
				if !reflect.DeepEqual(sps[j], u.objs[j].sp) {
					t.Failf("argument", "%s changed object %d of its argument", what, j)
				}
			}
			full(ti, t, what)
			// the tree stays exact under updates after construction
			step := 0
			do := func(o rop) {
				step++
				ti.apply(t, o)
				ti.checkContents(t, fmt.Sprintf("%s then %d updates, last %s", what, step, u.opStr(o)))
			}
			do(rop{opInsert, n, 0})
			for j := 0; j < n; j += 3 {
				do(rop{opInsert, n + 1, 0})
				do(rop{opDelete, j, 0})
				do(rop{opDelete, n + 1, 0})
				do(rop{opInsert, j, 0})
				do(rop{opInsert, j, 0})
				do(rop{opDelete, j, 0})
			}
			ti.checkSearch(t)
			ti.checkShape(t)
			t.Trace()
			t.Out(fmt.Sprintf("depth-%d", ti.tr.Depth()))
			t.Obs(hashStr(fmt.Sprint(k, ti.tr.Depth(), n)))
		})
		c.Enum("random-id-constructor", Product([]int{maxN + 1, len(layouts)}), func(i int64, t *T) {
			d := Radix(i, []int{maxN + 1, len(layouts)}, nil)
			n, l := d[0], d[1]
			t.Desc(func() string { return fmt.Sprintf("NewRandomIDTree, %d objects, layout %s", n, layouts[l].name) })
			u := us[l][n]
			var gs, want []geo.Geometry
			for j := 0; j < n; j++ {
				gs = append(gs, cloneGeom(u.objs[j].sp.Geom))
				want = append(want, cloneGeom(u.objs[j].sp.Geom))
			}
			tr := geo.NewRandomIDTree(gs...)
			matchGeoms(t, tr, want, "NewRandomIDTree")
			for j := 0; j < 4; j++ {
				g := u.objs[(n+j)%len(u.objs)].sp.Geom
				tr.InsertWithRandomId(cloneGeom(g))
				want = append(want, cloneGeom(g))
				matchGeoms(t, tr, want, "then InsertWithRandomId")
			}
			t.Trace()
		})
		// clock standing still: every sequence of inserts and deletes of the k-th oldest object
		depth := Pick(c, 6, 8)
		c.Enum("frozen-clock", Product([]int{4})*Pow(4, depth), func(i int64, t *T) {
			init := int(i % 4)
			var dg []int
			dg = Digits(i/4, 4, depth, dg)
			t.Desc(func() string {
				s := fmt.Sprintf("clock standing still; NewRandomIDTree of %d objects", []int{0, 3, 11, 12}[init])
				for _, o := range dg {
					s += []string{"; InsertWithRandomId", "; Delete(oldest)", "; Delete(newest)", "; Delete(oldest), InsertWithRandomId"}[o]
				}
				return s
			})
			frozen(func() {
				var gs, want []geo.Geometry
				for j := 0; j < []int{0, 3, 11, 12}[init]; j++ {
					gs = append(gs, geo.Point{X: float64(j), Y: float64(j % 3)})
				}
				want = append(want, gs...)
				tr := geo.NewRandomIDTree(gs...)
				n := len(gs)
				insert := func() {
					g := geo.Point{X: float64(n), Y: float64(n % 4)}
					n++
					tr.InsertWithRandomId(g)
					want = append(want, g)
					t.Op(1)
				}
				del := func(k int) {
					if len(want) == 0 {
						return
					}
					if k < 0 {
						k = len(want) - 1
					}
					g := want[k]
					b := geo.BoundingBox(g)
					sps := tr.SearchIntersect(b)
					if len(sps) != 1 || !tr.Delete(sps[0]) {
						t.Failf("delete", "object %v cannot be deleted: %d found", g, len(sps))
					}
					want = append(append([]geo.Geometry{}, want[:k]...), want[k+1:]...)
				}
				for _, o := range dg {
					switch o {
					case 0:
						insert()
					case 1:
						del(0)
					case 2:
						del(-1)
					case 3:
						del(0)
						insert()
					}
				}
				matchGeoms(t, tr, want, "after the sequence")
			})
			t.Trace()
		})
	}})
}
