package main

// R-tree: universe of objects, reference model (a plain multiset), full-state oracle.

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	geo "github.com/hzw456/go-geo"
)

type rbox struct{ x0, y0, x1, y1 float64 }

func (b rbox) meets(o rbox) bool {
	return b.x0 <= o.x1 && o.x0 <= b.x1 && b.y0 <= o.y1 && o.y0 <= b.y1
}

func (b rbox) dist2(p geo.Point) float64 {
	dx := math.Max(0, math.Max(b.x0-p.X, p.X-b.x1))
	dy := math.Max(0, math.Max(b.y0-p.Y, p.Y-b.y1))
	return dx*dx + dy*dy
}

func refBox(pts []geo.Point) rbox {
	b := rbox{math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)}
	for _, p := range pts {
		b.x0, b.y0 = math.Min(b.x0, p.X), math.Min(b.y0, p.Y)
		b.x1, b.y1 = math.Max(b.x1, p.X), math.Max(b.y1, p.Y)
	}
	return b
}

type robj struct {
	sp  geo.Spatial
	box rbox
}

// universe: objects are identified by the index kept in Properties.
type universe struct {
	name    string
	typed   bool           // objects may differ in the type of their properties only
	byID    map[string]int // objects stored with an id made by the tree
	objs    []robj
	queries []rbox
	probes  []geo.Point
}

type tagged struct {
	idx int
	m   map[string]int // makes the value uncomparable with ==
}

func idxOf(sp geo.Spatial) int {
	switch p := sp.Properties.(type) {
	case int:
		return p
	case tagged:
		return p.idx
	case []int:
		return p[0]
	case map[string]interface{}:
		return p["idx"].(int)
	}
	return -1
}

// idx finds the object a tree has returned.
func (u *universe) idx(sp geo.Spatial) int {
	if sp.Properties == nil && u.byID != nil {
		if k, ok := u.byID[sp.ID]; ok {
			return k
		}
	}
	if !u.typed {
		return idxOf(sp)
	}
	for k, o := range u.objs {
		if o.sp.ID == sp.ID && reflect.DeepEqual(o.sp, sp) {
			return k
		}
	}
	return -1
}

func (u *universe) add(id string, props interface{}, g geo.Geometry, pts ...geo.Point) {
	u.objs = append(u.objs, robj{geo.Spatial{ID: id, Properties: props, Geom: g}, refBox(pts)})
}

func (u *universe) addPoint(id string, x, y float64) {
	u.add(id, len(u.objs), geo.Point{X: x, Y: y}, geo.Point{X: x, Y: y})
}

func (u *universe) addLine(id string, pts ...geo.Point) {
	u.add(id, len(u.objs), geo.LineString(append([]geo.Point{}, pts...)), pts...)
}

func (u *universe) addRect(id string, x0, y0, x1, y1 float64) {
	a := []geo.Point{{X: x0, Y: y0}, {X: x1, Y: y0}, {X: x1, Y: y1}, {X: x0, Y: y1}, {X: x0, Y: y0}}
	u.add(id, len(u.objs), geo.Polygon{geo.LinearRing(append([]geo.Point{}, a...))}, a...)
}

// gridQueries: a set of query boxes built from intervals that start, end, touch or miss the
// coordinates of the objects, and probe points.
func (u *universe) finish() *universe {
	all := rbox{math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)}
	xs, ys := map[float64]bool{}, map[float64]bool{}
	for _, o := range u.objs {
		all.x0, all.y0 = math.Min(all.x0, o.box.x0), math.Min(all.y0, o.box.y0)
		all.x1, all.y1 = math.Max(all.x1, o.box.x1), math.Max(all.y1, o.box.y1)
		xs[o.box.x0], xs[o.box.x1] = true, true
		ys[o.box.y0], ys[o.box.y1] = true, true
	}
	iv := func(m map[float64]bool) [][2]float64 {
		var v []float64
		for k := range m {
			v = append(v, k)
		}
		sort.Float64s(v)
		if len(v) > 4 {
			v = []float64{v[0], v[len(v)/3], v[2*len(v)/3], v[len(v)-1]}
		}
		var r [][2]float64
		lo, hi := v[0], v[len(v)-1]
		w := hi - lo
		if w == 0 {
			w = 1
		}
		e := w / 64
		r = append(r, [2]float64{lo - w, hi + w}, [2]float64{lo - w, lo - e}, [2]float64{hi + e, hi + w})
		for i := range v {
			r = append(r, [2]float64{v[i], v[i]})
			if i+1 < len(v) {
				r = append(r, [2]float64{v[i] + e, v[i+1] - e}, [2]float64{v[i] + e, v[i+1]})
			}
		}
		return r
	}
	ix, iy := iv(xs), iv(ys)
	for _, a := range ix {
		for _, b := range iy {
			if a[0] <= a[1] && b[0] <= b[1] {
				u.queries = append(u.queries, rbox{a[0], b[0], a[1], b[1]})
			}
		}
	}
	for _, a := range ix {
		for k, b := range iy {
			if (k+len(u.probes))%2 == 0 {
				u.probes = append(u.probes, geo.Point{X: (a[0] + a[1]) / 2, Y: b[0]})
			}
		}
	}
	return u
}

// ------------------------------------------------------------------ live tree + model

type treeInst struct {
	u    *universe
	tr   *geo.Rtree
	cnt  []int // model: number of stored copies per object
	size int
}

func (ti *treeInst) counts(res []geo.Spatial, t *T, what string) []int {
	got := make([]int, len(ti.u.objs))
	for _, sp := range res {
		k := ti.u.idx(sp)
		if k < 0 || k >= len(got) {
			t.Failf("foreign", "%s returned an object that was never stored: %+v", what, sp)
		}
		o := ti.u.objs[k].sp
		if sp.ID != o.ID || !reflect.DeepEqual(sp.Geom, o.Geom) {
			t.Failf("altered", "%s returned an altered object: %+v, stored %+v", what, sp, o)
		}
		got[k]++
	}
	return got
}

func (ti *treeInst) expect(f func(k int, o robj) bool) []int {
	e := make([]int, len(ti.cnt))
	for k, n := range ti.cnt {
		if n > 0 && f(k, ti.u.objs[k]) {
			e[k] = n
		}
	}
	return e
}

func eqInts(a, b []int) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (ti *treeInst) contents() string {
	var p []string
	for k, n := range ti.cnt {
		if n > 0 {
			s := fmt.Sprintf("%s%v", ti.u.objs[k].sp.ID, ti.u.objs[k].sp.Geom)
			if n > 1 {
				s += fmt.Sprintf("x%d", n)
			}
			p = append(p, s)
		}
	}
	return "{" + strings.Join(p, " ") + "}"
}

// checkSearch: every query box, compared with the model.
func (ti *treeInst) checkSearch(t *T) {
	for _, q := range ti.u.queries {
		bb := geo.NewBox(q.x0, q.y0, q.x1, q.y1)
		got := ti.counts(ti.tr.SearchIntersect(bb), t, "SearchIntersect")
		want := ti.expect(func(k int, o robj) bool { return o.box.meets(q) })
		t.ops++
		if !eqInts(got, want) {
			t.Failf("search", "SearchIntersect(%v) per-object counts %v, want %v; stored %s", *bb, got, want, ti.contents())
		}
	}
	// conditions
	for par := 0; par < 3; par++ {
		par := par
		q := ti.u.queries[0]
		if par == 2 {
			q = ti.u.queries[len(ti.u.queries)/2]
		}
		calls := 0
		cond := func(o ...geo.Spatial) bool {
			calls++
			return len(o) > 0 && ti.u.idx(o[0])%2 == par%2
		}
		got := ti.counts(ti.tr.SearchIntersectWithCond(geo.NewBox(q.x0, q.y0, q.x1, q.y1), cond), t, "SearchIntersectWithCond")
		want := ti.expect(func(k int, o robj) bool { return o.box.meets(q) && k%2 == par%2 })
		t.ops++
		if !eqInts(got, want) {
			t.Failf("search-cond", "SearchIntersectWithCond(%v, index mod 2 = %d) counts %v, want %v; stored %s", q, par%2, got, want, ti.contents())
		}
	}
	if r := ti.tr.SearchIntersect(nil); len(r) != 0 {
		t.Failf("search-nil", "SearchIntersect(nil) returned %d objects", len(r))
	}
}

// checkContents: everything stored, exactly, and Size.
func (ti *treeInst) checkContents(t *T, what string) {
	t.ops += 2
	if ti.tr.Size() != ti.size {
		t.Failf("size", "%s: Size() = %d, %d objects are stored: %s", what, ti.tr.Size(), ti.size, ti.contents())
	}
	big := geo.NewBox(-1e12, -1e12, 1e12, 1e12)
	got := ti.counts(ti.tr.SearchIntersect(big), t, "SearchIntersect(everything)")
	if !eqInts(got, ti.cnt) {
		t.Failf("contents", "%s: stored copies per object %v, want %v (%s)", what, got, ti.cnt, ti.contents())
	}
}

func (ti *treeInst) ids() []string {
	seen := map[string]bool{}
	var ids []string
	for _, o := range ti.u.objs {
		if !seen[o.sp.ID] {
			seen[o.sp.ID] = true
			ids = append(ids, o.sp.ID)
		}
	}
	return ids
}

func (ti *treeInst) checkIDs(t *T) {
	ids := ti.ids()
	if n := len(ids); n > 150 { // a part of the ids of a huge tree, another one at every size
		var few []string
		for i := ti.size % (n / 50); i < n; i += n / 50 {
			few = append(few, ids[i])
		}
		ids = few
	}
	for _, id := range append(ids, "no-such-id", "") {
		got := ti.counts(ti.tr.SearchBySpatialID(id), t, "SearchBySpatialID")
		want := ti.expect(func(k int, o robj) bool { return o.sp.ID == id })
		t.ops++
		if !eqInts(got, want) {
			t.Failf("search-id", "SearchBySpatialID(%q) counts %v, want %v; stored %s", id, got, want, ti.contents())
		}
	}
}

func (ti *treeInst) checkNN(t *T) {
	var d []float64
	ks := []int{1, 2, ti.size - 1, ti.size, ti.size + 1, ti.size + 7}
	if ti.size > 6 {
		ks = append(ks, 3, ti.size/2)
	} else {
		ks = append(ks, 3, 4, 5)
	}
	seen := map[int]bool{}
	for _, p := range ti.u.probes {
		d = d[:0]
		for k, n := range ti.cnt {
			for j := 0; j < n; j++ {
				d = append(d, ti.u.objs[k].box.dist2(p))
			}
		}
		sort.Float64s(d)
		for k := range seen {
			delete(seen, k)
		}
		for _, k := range ks {
			if k < 1 || seen[k] {
				continue
			}
			seen[k] = true
			res := ti.tr.NearestNeighbors(k, p)
			t.ops++
			want := k
			if want > ti.size {
				want = ti.size
			}
			if len(res) != want {
				t.Failf("nn-count", "NearestNeighbors(%d, %v) returned %d objects, want %d; stored %s", k, p, len(res), want, ti.contents())
			}
			got := ti.counts(res, t, "NearestNeighbors")
			for i, g := range got {
				if g > ti.cnt[i] {
					t.Failf("nn-dup", "NearestNeighbors(%d, %v) returned object %d %d times, stored %d times", k, p, i, g, ti.cnt[i])
				}
			}
			for i, sp := range res {
				dd := ti.u.objs[ti.u.idx(sp)].box.dist2(p)
				if math.Abs(dd-d[i]) > 1e-12*d[i] {
					t.Failf("nn-dist", "NearestNeighbors(%d, %v)[%d] = %v at squared distance %v, the %d-th nearest is at %v; stored %s", k, p, i, sp, dd, i+1, d[i], ti.contents())
				}
			}
		}
	}
	for _, k := range []int{0, -1} {
		if r := ti.tr.NearestNeighbors(k, geo.Point{X: 1, Y: 1}); len(r) != 0 {
			t.Failf("nn-zero", "NearestNeighbors(%d) returned %d objects", k, len(r))
		}
	}
}

// checkShape: Depth and GetAllBoundingBoxes against the model.
func (ti *treeInst) checkShape(t *T) {
	depth := ti.tr.Depth()
	boxes := ti.tr.GetAllBoundingBoxes()
	t.ops += 2
	if depth < 1 {
		t.Failf("depth", "Depth() = %d", depth)
	}
	if (depth == 1) != (len(boxes) == 0) {
		t.Failf("depth-boxes", "Depth() = %d but GetAllBoundingBoxes returned %d boxes; stored %s", depth, len(boxes), ti.contents())
	}
	if math.Pow(float64(ti.tr.MaxChildren), float64(depth)) < float64(ti.size)-0.5 {
		t.Failf("overfull", "Depth() = %d with MaxChildren %d cannot hold the %d stored objects", depth, ti.tr.MaxChildren, ti.size)
	}
	// every object lies in at least Depth-1 of the boxes (one per level above the objects' leaf... the root has none)
	for k, n := range ti.cnt {
		if n == 0 {
			continue
		}
		o := ti.u.objs[k].box
		c := 0
		for _, b := range boxes {
			if b.MinX <= o.x0 && b.MinY <= o.y0 && b.MaxX >= o.x1 && b.MaxY >= o.y1 {
				c++
			}
		}
		if c < depth-1 {
			t.Failf("cover", "object %v lies in %d node boxes, Depth is %d so it has %d ancestors below the root; boxes %s; stored %s", ti.u.objs[k].sp, c, depth, depth-1, boxStr(boxes), ti.contents())
		}
	}
	// every box is tight: each of its sides is the side of a stored object that lies inside it
	for _, b := range boxes {
		var l, r, lo, hi bool
		for k, n := range ti.cnt {
			if n == 0 {
				continue
			}
			o := ti.u.objs[k].box
			if b.MinX <= o.x0 && b.MinY <= o.y0 && b.MaxX >= o.x1 && b.MaxY >= o.y1 {
				l = l || o.x0 == b.MinX
				r = r || o.x1 == b.MaxX
				lo = lo || o.y0 == b.MinY
				hi = hi || o.y1 == b.MaxY
			}
		}
		if !(l && r && lo && hi) {
			t.Failf("tight", "node box %v is not the envelope of stored objects; boxes %s; stored %s", *b, boxStr(boxes), ti.contents())
		}
	}
}

func boxStr(bs []*geo.Box) string {
	var p []string
	for _, b := range bs {
		p = append(p, fmt.Sprintf("[%v,%v %v,%v]", b.MinX, b.MinY, b.MaxX, b.MaxY))
	}
	return strings.Join(p, " ")
}

// ------------------------------------------------------------------ operations

const (
	opInsert = iota
	opDelete
	opDeleteCmp
	opDeleteID
	opUpsert
	opUpsert2
	opLoad
	opDeleteCmpID
	opInsertRand   // InsertWithRandomId of the geometry of an object
	opDeleteRand   // Delete of the oldest object with a generated id
	opDeleteRandID // DeleteBySpatialID of the newest generated id
	opUpsertRand   // Upsert of an object under the oldest generated id
)

type rop struct {
	kind, a, b int
}

func (u *universe) opStr(o rop) string {
	ob := func(k int) string { return fmt.Sprintf("%q%v", u.objs[k].sp.ID, u.objs[k].sp.Geom) }
	switch o.kind {
	case opInsert:
		return "Insert(" + ob(o.a) + ")"
	case opDelete:
		return "Delete(" + ob(o.a) + ")"
	case opDeleteCmp:
		return "DeleteWithComparator(" + ob(o.a) + ")"
	case opDeleteID:
		return fmt.Sprintf("DeleteBySpatialID(%q)", u.objs[o.a].sp.ID)
	case opUpsert:
		return "Upsert(" + ob(o.a) + ")"
	case opUpsert2:
		return "Upsert(" + ob(o.a) + "," + ob(o.b) + ")"
	}
	if o.kind == opDeleteCmpID {
		return "DeleteWithComparator(same id, " + ob(o.a) + ")"
	}
	switch o.kind {
	case opInsertRand:
		return fmt.Sprintf("InsertWithRandomId(%v)", u.objs[o.a].sp.Geom)
	case opDeleteRand:
		return "Delete(oldest with a generated id)"
	case opDeleteRandID:
		return "DeleteBySpatialID(newest generated id)"
	case opUpsertRand:
		return fmt.Sprintf("Upsert(oldest generated id, %v)", u.objs[o.a].sp.Geom)
	}
	if o.kind == opLoad {
		return fmt.Sprintf("Construct(first %d objects)", o.a)
	}
	return "?"
}

func (ti *treeInst) dropID(id string) int {
	n := 0
	for k, o := range ti.u.objs {
		if o.sp.ID == id {
			n += ti.cnt[k]
			ti.size -= ti.cnt[k]
			ti.cnt[k] = 0
		}
	}
	return n
}

// fresh returns a copy of the object that shares no slice with the stored one.
func (u *universe) fresh(k int) geo.Spatial {
	sp := u.objs[k].sp
	sp.Geom = cloneGeom(sp.Geom)
	return sp
}

func (ti *treeInst) apply(t *T, o rop) {
	if o.kind >= opInsertRand {
		ti.applyRand(t, o)
		return
	}
	t.ops++
	switch o.kind {
	case opInsert:
		ti.tr.Insert(ti.u.fresh(o.a))
		ti.cnt[o.a]++
		ti.size++
	case opDelete, opDeleteCmp:
		var got bool
		name := "Delete"
		if o.kind == opDelete {
			got = ti.tr.Delete(ti.u.fresh(o.a))
		} else {
			name = "DeleteWithComparator"
			got = ti.tr.DeleteWithComparator(ti.u.fresh(o.a), func(x ...geo.Spatial) bool {
				if len(x) != 2 || ti.u.idx(x[1]) != o.a {
					t.Failf("delete-cmp-args", "DeleteWithComparator(%v) calls the comparator with %v, want a stored object and the given one", ti.u.objs[o.a].sp, x)
				}
				return ti.u.idx(x[0]) == ti.u.idx(x[1])
			})
		}
		want := ti.cnt[o.a] > 0
		if got != want {
			t.Failf("delete-result", "%s(%v) = %v, stored copies before: %d", name, ti.u.objs[o.a].sp, got, ti.cnt[o.a])
		}
		if want {
			ti.cnt[o.a]--
			ti.size--
		}
	case opDeleteCmpID:
		// the comparator looks at the id only: one of the objects it accepts goes, and one must
		// go if an accepted object has the geometry given
		obj := ti.u.objs[o.a]
		must, may := false, false
		for k, n := range ti.cnt {
			if n > 0 && ti.u.objs[k].sp.ID == obj.sp.ID {
				may = true
				must = must || ti.u.objs[k].box == obj.box
			}
		}
		got := ti.tr.DeleteWithComparator(ti.u.fresh(o.a), func(x ...geo.Spatial) bool {
			return len(x) == 2 && x[0].ID == x[1].ID
		})
		if got && !may || !got && must {
			t.Failf("delete-cmp-result", "DeleteWithComparator(by id, %v) = %v; stored %s", obj.sp, got, ti.contents())
		}
		if got {
			now := ti.counts(ti.tr.SearchIntersect(geo.NewBox(-1e12, -1e12, 1e12, 1e12)), t, "SearchIntersect(everything)")
			gone := -1
			for k := range now {
				d := ti.cnt[k] - now[k]
				if d == 1 && gone < 0 && ti.u.objs[k].sp.ID == obj.sp.ID {
					gone = k
				} else if d != 0 {
					t.Failf("delete-cmp-wrong", "DeleteWithComparator(by id, %v) changed the stored copies from %v to %v", obj.sp, ti.cnt, now)
				}
			}
			if gone < 0 {
				t.Failf("delete-cmp-none", "DeleteWithComparator(by id, %v) = true but nothing was removed", obj.sp)
			}
			ti.cnt[gone]--
			ti.size--
		}
	case opDeleteID:
		id := ti.u.objs[o.a].sp.ID
		got := ti.tr.DeleteBySpatialID(id)
		want := ti.dropID(id) > 0
		if got != want {
			t.Failf("delete-id-result", "DeleteBySpatialID(%q) = %v, want %v", id, got, want)
		}
	case opUpsert:
		ti.tr.UpsertBySpatialID(ti.u.fresh(o.a))
		ti.dropID(ti.u.objs[o.a].sp.ID)
		ti.cnt[o.a]++
		ti.size++
	case opUpsert2:
		ti.tr.UpsertBySpatialID(ti.u.fresh(o.a), ti.u.fresh(o.b))
		for _, k := range []int{o.a, o.b} {
			ti.dropID(ti.u.objs[k].sp.ID)
			ti.cnt[k]++
			ti.size++
		}
	}
}

// grow adds an object to this instance's universe.
func (ti *treeInst) grow(sp geo.Spatial, box rbox) int {
	k := len(ti.u.objs)
	ti.u.objs = append(ti.u.objs, robj{sp, box})
	ti.cnt = append(ti.cnt, 0)
	return k
}

// applyRand: the operations on generated ids; the universe must be the instance's own.
func (ti *treeInst) applyRand(t *T, o rop) {
	var stored []int
	for k := range ti.cnt {
		if _, ok := ti.u.byID[ti.u.objs[k].sp.ID]; ok && ti.cnt[k] > 0 && ti.u.objs[k].sp.Properties == nil {
			stored = append(stored, k)
		}
	}
	if o.kind != opInsertRand && len(stored) == 0 {
		return
	}
	t.ops++
	switch o.kind {
	case opInsertRand:
		ob := ti.u.objs[o.a]
		ti.tr.InsertWithRandomId(cloneGeom(ob.sp.Geom))
		var found *geo.Spatial
		for _, sp := range ti.tr.SearchIntersect(geo.NewBox(-1e12, -1e12, 1e12, 1e12)) {
			if _, known := ti.u.byID[sp.ID]; sp.Properties == nil && !known {
				sp := sp
				found = &sp
			}
		}
		if found == nil || found.ID == "" || !reflect.DeepEqual(found.Geom, ob.sp.Geom) {
			t.Failf("insert-random", "InsertWithRandomId(%v) did not store it under a new id: %+v; ids %v", ob.sp.Geom, found, ti.u.byID)
		}
		k := ti.grow(geo.Spatial{ID: found.ID, Geom: cloneGeom(ob.sp.Geom)}, ob.box)
		ti.u.byID[found.ID] = k
		ti.cnt[k]++
		ti.size++
	case opDeleteRand:
		if !ti.tr.Delete(ti.u.fresh(stored[0])) {
			t.Failf("delete-result", "Delete(%+v) = false, it is stored", ti.u.objs[stored[0]].sp)
		}
		ti.cnt[stored[0]]--
		ti.size--
	case opDeleteRandID:
		id := ti.u.objs[stored[len(stored)-1]].sp.ID
		if !ti.tr.DeleteBySpatialID(id) {
			t.Failf("delete-id-result", "DeleteBySpatialID(%q) = false, it is stored", id)
		}
		ti.dropID(id)
	case opUpsertRand:
		id := ti.u.objs[stored[0]].sp.ID
		k := ti.grow(geo.Spatial{ID: id, Properties: len(ti.u.objs), Geom: ti.u.objs[o.a].sp.Geom}, ti.u.objs[o.a].box)
		ti.tr.UpsertBySpatialID(ti.u.fresh(k))
		ti.dropID(id)
		ti.cnt[k]++
		ti.size++
	}
}

func (ti *treeInst) key() string {
	w := Canon(ti.tr)
	var b []byte
	for _, n := range ti.cnt {
		b = append(b, byte(n))
	}
	return w + string(b)
}
