package main

// C01: operations change nothing but what they are documented to edit, and their outcome depends
// on their arguments only.

import (
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"
	"sync"

	geo "github.com/hzw456/go-geo"
)

// firstOutcome is run in a process of its own: the outcome of operation k before anything else.
func firstOutcome(k int) string {
	return buildOps()[k].run(NewPool())
}

func (o *Op) run(p *Pool) string {
	b := o.Bind(p)
	b.Call()
	return b.Outcome()
}

// scribble overwrites everything that can be reached through slices, pointers and maps.
func scribble(v reflect.Value, depth int, seen map[uintptr]bool) {
	if !v.IsValid() || depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && !seen[v.Pointer()] {
			seen[v.Pointer()] = true
			scribble(v.Elem(), depth+1, seen)
		}
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1, seen)
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		f := v.Slice(0, v.Cap())
		for i := 0; i < f.Len(); i++ {
			scribble(f.Index(i), depth+1, seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1, seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), depth+1, seen)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k), depth+1, seen)
		}
		if !v.IsNil() && v.CanInterface() && v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf("scribbled").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		}
	case reflect.Float64, reflect.Float32:
		if v.CanSet() {
			v.SetFloat(-987654321.5)
		}
	case reflect.Int, reflect.Int64, reflect.Int8, reflect.Int16, reflect.Int32:
		if v.CanSet() {
			v.SetInt(-77)
		}
	case reflect.Uint, reflect.Uint64, reflect.Uint8, reflect.Uint16, reflect.Uint32:
		if v.CanSet() {
			v.SetUint(66)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

// views are the operations whose results may share the memory of an argument
var views = map[string]bool{"NewFeature": true, "LinearRing.ToLineString": true, "LinearRingZ.ToLineString": true, "GetPoint": true, "GetEndPoint": true, "GetFirstPoint": true,
	"GetPointSet": true, "GetExteriorPoints": true, "GetExteriorRing": true, "GetInteriorRing": true, "GetInteriorRing Z": true}

func isTree(v reflect.Value) bool { return v.Type() == reflect.TypeOf((*geo.Rtree)(nil)) }

func init() {
	register(&Prop{ID: "C01", Rule: "every operation of a catalogue that covers the exported functions of the three packages, every sequence of two (and of three) of them, on shared and on separate arguments; the outcome of each is compared with its outcome as the first operation of a new process, the arguments with their contents before (spare capacity included), results kept from earlier operations with their contents when they were returned; and every sequence of R-tree queries and updates on two trees with all results kept",
		Assum: []string{"getters such as GetPointSet, GetExteriorRing and ToLineString may return slices that share the value's memory", "geometries stored in an R-tree are shared with the caller; the slices of objects passed in and returned are not"}, Run: func(c *Ctx) {
			c.workers = 1
			ops := buildOps()
			n := int64(len(ops))
			// in the exploring process only: outcomes of every operation as the first one
			ref := make([]string, n)
			need := func() {
				self, _ := os.Executable()
				var wg sync.WaitGroup
				sem := make(chan struct{}, 8)
				for k := range ops {
					wg.Add(1)
					sem <- struct{}{}
					go func(k int) {
						defer func() { <-sem; wg.Done() }()
						out, err := exec.Command(self, "first", strconv.Itoa(k)).Output()
						ref[k] = string(out)
						if err != nil {
							ref[k] = fmt.Sprint("the process failed: ", err)
						}
					}(k)
				}
				wg.Wait()
			}
			need()
			expect := func(t *T, k int64, got, when string) {
				t.ops++
				if got != ref[k] {
					t.Failf("outcome", "%s %s gives %s; as the first operation of a process it gives %s", ops[k].Name, when, cut(got), cut(ref[k]))
				}
			}
			args := func(t *T, p *Pool, before, what string) {
				if after := p.Snap(); after != before {
					t.Failf("argument", "%s changed an argument: %s", what, firstDiff(before, after))
				}
			}
			c.Enum("each operation", n, func(i int64, t *T) {
				o := ops[i]
				t.Desc(func() string { return o.Name })
				p := NewPool()
				b := o.Bind(p)
				before := p.Snap()
				b.Call()
				raw, out := b.Raw(), b.Outcome()
				expect(t, i, out, "in a process with earlier operations")
				args(t, p, before, o.Name)
				t.Obs(hashStr(out))
				b2 := o.Bind(p)
				b2.Call()
				expect(t, i, b2.Outcome(), "a second time")
				args(t, p, before, o.Name+" twice")
				if b.Raw() != raw {
					t.Failf("kept", "the result of %s changed when it was called again: %s", o.Name, firstDiff(raw, b.Raw()))
				}
				t.Trace()
			})
			c.Enum("pairs on shared arguments", n*n, func(i int64, t *T) {
				x, y := i%n, i/n
				a, b := ops[x], ops[y]
				t.Desc(func() string { return a.Name + "; " + b.Name })
				p := NewPool()
				ba, bb := a.Bind(p), b.Bind(p)
				before := p.Snap()
				ba.Call()
				raw := ba.Raw()
				bb.Call()
				expect(t, y, bb.Outcome(), "after "+a.Name)
				if r := ba.Raw(); r != raw {
					t.Failf("kept", "%s changed the result of %s before it: %s", b.Name, a.Name, firstDiff(raw, r))
				}
				args(t, p, before, a.Name+" or "+b.Name)
				t.Trace()
			})
			c.Enum("pairs on separate arguments, first result overwritten", n*n, func(i int64, t *T) {
				x, y := i%n, i/n
				a, b := ops[x], ops[y]
				t.Desc(func() string { return a.Name + "; result overwritten; " + b.Name })
				ba := a.Bind(NewPool())
				ba.Call()
				for _, v := range ba.out {
					if !isTree(v) {
						scribble(v, 0, map[uintptr]bool{})
					}
				}
				bb := b.Bind(NewPool())
				bb.Call()
				expect(t, y, bb.Outcome(), "after "+a.Name+" and overwriting its result")
				t.Trace()
			})
			c.Enum("result overwritten, arguments kept", n, func(i int64, t *T) {
				o := ops[i]
				f := o.Name[:strings.Index(o.Name, "(")]
				t.Desc(func() string { return o.Name + "; result overwritten" })
				p := NewPool()
				b := o.Bind(p)
				if o.Edit || views[f] || strings.HasPrefix(o.Name, "NewRingFromLine(@lineClosed") {
					return
				}
				before := p.Snap()
				b.Call()
				for _, v := range b.out {
					switch sp, ok := v.Interface().([]geo.Spatial); {
					case isTree(v):
					case ok:
						// stored geometries and properties are shared, the list is not
						for k := range sp {
							sp[k] = geo.Spatial{ID: "scribbled", Properties: 1, Geom: geo.Point{X: 1e6}}
						}
						_ = append(sp[:0:cap(sp)], make([]geo.Spatial, cap(sp))...)
					default:
						scribble(v, 0, map[uintptr]bool{})
					}
				}
				if s := p.Snap(); s != before {
					t.Failf("shared", "editing the result of %s changed its argument: %s", o.Name, firstDiff(before, s))
				}
				t.Trace()
			})
			editSpace(c, ops)
			// one operation per function, for longer sequences
			var rep []int64
			seen := map[string]bool{}
			for k, o := range ops {
				f := o.Name[:strings.Index(o.Name, "(")]
				if c.Thorough() && strings.Contains("ConvexHull Mbr Centroid SearchIntersect wkt.Decode MarshalGeo NearestNeighbors", f) {
					f = o.Name
				}
				if !seen[f] {
					seen[f] = true
					rep = append(rep, int64(k))
				}
			}
			m := int64(len(rep))
			if !c.Thorough() {
				// operation, any other one, the same again
				c.Enum("an operation, another one, the first again", n*n, func(i int64, t *T) {
					x, y := i%n, i/n
					t.Desc(func() string { return ops[x].Name + "; " + ops[y].Name + "; again" })
					p := NewPool()
					ops[x].Bind(p).Call()
					ops[y].Bind(p).Call()
					expect(t, x, ops[x].run(p), "again, after "+ops[y].Name)
					t.Trace()
				})
			} else {
				c.Enum("sequences of three operations", m*m*m, func(i int64, t *T) {
					x, y, z := rep[i%m], rep[i/m%m], rep[i/m/m]
					t.Desc(func() string { return ops[x].Name + "; " + ops[y].Name + "; " + ops[z].Name })
					p := NewPool()
					ba := ops[x].Bind(p)
					ba.Call()
					raw := ba.Raw()
					expect(t, y, ops[y].run(p), "after "+ops[x].Name)
					expect(t, z, ops[z].run(p), "after "+ops[x].Name+" and "+ops[y].Name)
					if r := ba.Raw(); r != raw {
						t.Failf("kept", "%s or %s changed the result of %s: %s", ops[y].Name, ops[z].Name, ops[x].Name, firstDiff(raw, r))
					}
					t.Trace()
				})
			}
			treeSpace(c)
		}})
}

// floatsOf lists the coordinates the caller can change in place (vertices reached through slices
// and pointers, without spare capacity; trees keep their objects).
func floatsOf(v reflect.Value, depth int, out *[]reflect.Value) {
	if !v.IsValid() || depth > 8 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && !isTree(v) {
			floatsOf(v.Elem(), depth+1, out)
		}
	case reflect.Interface:
		if !v.IsNil() {
			floatsOf(v.Elem(), depth+1, out)
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			floatsOf(v.Index(i), depth+1, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			floatsOf(v.Field(i), depth+1, out)
		}
	case reflect.Float64:
		if v.CanSet() {
			*out = append(*out, v)
		}
	}
}

// editArg changes argument name of the pool in place: one coordinate (k < number of coordinates),
// or all of them. It returns the number of different edits.
func editArg(p *Pool, name string, k int) int {
	var l []reflect.Value
	floatsOf(reflect.ValueOf(p.get(name)), 0, &l)
	n := len(l)
	switch {
	case n == 0:
		return 0
	case k < 0:
	case k < n:
		l[k].SetFloat(l[k].Float() + 7.375)
	case k == n:
		for _, v := range l {
			v.SetFloat(v.Float() + 3.5)
		}
	case k == n+1:
		for _, v := range l {
			v.SetFloat(v.Float() * -0.5)
		}
	case k == n+2: // the order of the vertices turned round, roughly: values exchanged end to end
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			a, b := l[i].Float(), l[j].Float()
			l[i].SetFloat(b)
			l[j].SetFloat(a)
		}
	}
	return n + 3
}

// outcomeOf is run with a panic as an outcome: edited arguments may be degenerate.
func (o *Op) outcomeOf(p *Pool) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("panic: ", r)
		}
	}()
	return o.run(p)
}

// editSpace: an operation, an edit of an argument in place by the caller, and the same or another
// operation on that argument: the outcome is the one fresh values with the same contents give.
func editSpace(c *Ctx, ops []*Op) {
	type es struct {
		x, y int
		name string
		k    int
	}
	var all []es
	pool := func(o *Op) (r []string) {
		for _, a := range o.Args {
			if s, ok := a.(string); ok && len(s) > 1 && s[0] == '@' {
				r = append(r, s[1:])
			}
		}
		return
	}
	for x, o := range ops {
		if o.NoEditCheck {
			continue
		}
		for _, name := range pool(o) {
			n := editArg(NewPool(), name, -1)
			for k := 0; k < n; k++ {
				all = append(all, es{x, x, name, k})
			}
			for y, q := range ops {
				for _, other := range pool(q) {
					if y == x || other != name || n == 0 || q.NoEditCheck {
						continue
					}
					ks := []int{0, (n - 3) / 2, n - 3, n - 2}
					if c.Thorough() {
						ks = nil
						for k := 0; k < n; k++ {
							ks = append(ks, k)
						}
					}
					for _, k := range ks {
						all = append(all, es{x, y, name, k})
					}
				}
			}
		}
	}
	c.Enum("an operation, an edit of its argument by the caller, an operation on it", int64(len(all)), func(i int64, t *T) {
		e := all[i]
		a, b := ops[e.x], ops[e.y]
		t.Desc(func() string { return fmt.Sprintf("%s; edit %d of %s in place; %s", a.Name, e.k, e.name, b.Name) })
		p := NewPool()
		a.Bind(p).Call()
		editArg(p, e.name, e.k)
		got := b.outcomeOf(p)
		q := NewPool()
		editArg(q, e.name, e.k)
		want := b.outcomeOf(q)
		t.ops += 3
		if got != want {
			t.Failf("edited", "after %s and an edit of its argument %s in place, %s gives %s; values made with the same contents give %s", a.Name, e.name, b.Name, cut(got), cut(want))
		}
		t.Obs(hashStr(want))
		t.Trace()
	})
}

func cut(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("...%s... became ...%s...", a[lo:min(len(a), i+80)], b[lo:min(len(b), i+80)])
}

// treeSpace: sequences of queries and updates on two trees. Results are kept and overwritten
// results do not reach the trees.
func treeSpace(c *Ctx) {
	w := c.workers
	c.workers = 8
	defer func() { c.workers = w }()
	depth := Pick(c, 3, 4)
	type kept struct {
		s    []geo.Spatial
		b    []*geo.Box
		was  string
		what string
	}
	names := []string{"SearchIntersect", "SearchIntersect all", "NearestNeighbors 3", "NearestNeighbors 9", "SearchBySpatialID", "overwrite the results so far", "Insert", "Delete o3", "DeleteBySpatialID o13", "Upsert", "empty the tree", "Insert 5", "GetAllBoundingBoxes"}
	nop := len(names)
	mk := func(k int) (*geo.Rtree, []geo.Spatial) {
		o := opObjs([]int{14, 3, 22}[k])
		st := append(make([]geo.Spatial, 0, len(o)+4), o...)
		switch k {
		case 0:
			return geo.NewMinMaxTree(2, 4, st...), st
		case 1:
			return geo.NewMinMaxTree(1, 3, st...), st
		}
		t := geo.NewMinMaxTree(2, 5)
		for _, s := range st {
			t.Insert(s)
		}
		return t, st
	}
	c.Enum("sequences of queries and updates on two trees", Pow(2*nop, depth)*3, func(i int64, t *T) {
		ka, kb := int(i%3), int((i+1)%3)
		tr, given := [2]*geo.Rtree{}, [2][]geo.Spatial{}
		tr[0], given[0] = mk(ka)
		tr[1], given[1] = mk(kb)
		var model [2][]geo.Spatial
		for k := range tr {
			model[k] = append([]geo.Spatial{}, given[k]...)
			for j := range given[k] { // the caller reuses its slice
				given[k][j] = geo.Spatial{ID: "reused", Geom: geo.Point{X: 1, Y: 1}}
			}
		}
		var hist []string
		t.Desc(func() string { return fmt.Sprintf("trees %d and %d: %s", ka, kb, strings.Join(hist, "; ")) })
		var keep []kept
		del := func(k int, f func(geo.Spatial) bool, all bool) {
			var r []geo.Spatial
			n := 0
			for _, s := range model[k] {
				if f(s) && (all || n == 0) {
					n++
					continue
				}
				r = append(r, s)
			}
			model[k] = r
		}
		desc := func(k int) string {
			var ids []string
			for _, s := range model[k] {
				ids = append(ids, s.ID+canon(s.Geom, false, false)+canon(s.Properties, false, false))
			}
			sortStrings(ids)
			return fmt.Sprint(len(ids), ids)
		}
		all := geo.NewBox(-1e9, -1e9, 1e9, 1e9)
		for step, o := range Digits(i/3, 2*nop, depth, nil) {
			k, op := o%2, o/2
			hist = append(hist, fmt.Sprintf("tree %d %s", k, names[op]))
			var r []geo.Spatial
			var bs []*geo.Box
			switch op {
			case 12:
				bs = tr[k].GetAllBoundingBoxes()
			case 0:
				r = tr[k].SearchIntersect(geo.NewBox(3, 3, 12, 9))
			case 1:
				r = tr[k].SearchIntersect(all)
			case 2:
				r = tr[k].NearestNeighbors(3, geo.Point{X: 7, Y: 7})
			case 3:
				r = tr[k].NearestNeighbors(9, geo.Point{X: 0, Y: 20})
			case 4:
				r = tr[k].SearchBySpatialID("o3")
			case 5:
				for _, q := range keep {
					f := q.s[:cap(q.s)]
					for j := range f {
						f[j] = geo.Spatial{ID: "overwritten", Geom: geo.Point{X: -5, Y: -5}}
					}
					for _, b := range q.b {
						*b = geo.Box{MinX: 1e20, MinY: 1e20, MaxX: 1e20, MaxY: 1e20}
					}
				}
				keep = nil
			case 6, 11:
				n := 1
				if op == 11 {
					n = 5
				}
				for j := 0; j < n; j++ {
					s := geo.Spatial{ID: fmt.Sprint("n", step, j), Geom: geo.Point{X: float64(3*step + j), Y: float64(5 * j)}}
					tr[k].Insert(s)
					model[k] = append(model[k], s)
				}
			case 7:
				s := opObjs(4)[3]
				tr[k].Delete(s)
				del(k, func(x geo.Spatial) bool { return x.ID == "o3" && reflect.DeepEqual(x, s) }, false)
			case 8:
				tr[k].DeleteBySpatialID("o13")
				del(k, func(x geo.Spatial) bool { return x.ID == "o13" }, true)
			case 9:
				s := geo.Spatial{ID: "o2", Geom: geo.Point{X: 50, Y: float64(step)}}
				tr[k].UpsertBySpatialID(s)
				del(k, func(x geo.Spatial) bool { return x.ID == "o2" }, true)
				model[k] = append(model[k], s)
			case 10:
				for _, s := range tr[k].SearchIntersect(all) {
					tr[k].Delete(s)
				}
				model[k] = nil
			}
			t.ops++
			if op < 5 || op == 12 {
				keep = append(keep, kept{r, bs, canon(r, false, true) + canon(bs, false, true), hist[len(hist)-1]})
			}
			for _, q := range keep {
				if now := canon(q.s, false, true) + canon(q.b, false, true); now != q.was {
					t.Failf("kept", "%s changed the result of %s: %s", hist[len(hist)-1], q.what, firstDiff(q.was, now))
				}
			}
			for j := range tr {
				if got := describeTree(tr[j]); got != desc(j) {
					t.Failf("tree", "after %s tree %d holds %s, want %s", hist[len(hist)-1], j, cut(got), cut(desc(j)))
				}
			}
		}
		t.Trace()
	})
}
