package main

// Line editing, constructors, aliasing (L01, L02, L03).

import (
	"fmt"
	"reflect"
	"strings"

	geo "github.com/hzw456/go-geo"
)

func ptEq(a, b geo.Point) bool {
	d := func(x, y float64) bool { return x-y < 1e-6 && y-x < 1e-6 }
	return d(a.X, b.X) && d(a.Y, b.Y)
}

func ptsSame(a, b []geo.Point) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func ptsSameZ(a, b []geo.PointZ) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------------ L01: the line as a list

type lineInst struct {
	line  geo.LineString
	z     geo.LineStringZ
	model []geo.Point
	zm    []geo.PointZ
	mx    int
}

var lAlpha = []geo.Point{{X: 0, Y: 0}, {X: 3, Y: -4}, {X: 3.5, Y: 1}}

type lop struct {
	kind, pos, pt int
}

func lineOps(mx int) []lop {
	var r []lop
	for p := range lAlpha {
		r = append(r, lop{0, 0, p})
		for i := -2; i <= mx+1; i++ {
			if p < 2 {
				r = append(r, lop{1, i, p}, lop{2, i, p})
			}
		}
	}
	for i := -2; i <= mx+1; i++ {
		r = append(r, lop{3, i, 0})
	}
	return append(r, lop{4, 0, 0})
}

func (o lop) String() string {
	switch o.kind {
	case 0:
		return fmt.Sprintf("Append(%v)", lAlpha[o.pt])
	case 1:
		return fmt.Sprintf("SetPoint(%d,%v)", o.pos, lAlpha[o.pt])
	case 2:
		return fmt.Sprintf("InsertPoint(%d,%v)", o.pos, lAlpha[o.pt])
	case 3:
		return fmt.Sprintf("DelPoint(%d)", o.pos)
	}
	return "Reverse()"
}

// applyModel applies o to a list; ok: the operation succeeds.
func (o lop) applyModel(m []geo.Point) (r []geo.Point, ok bool) {
	m = append([]geo.Point{}, m...)
	n := len(m)
	p := lAlpha[o.pt]
	switch o.kind {
	case 0:
		return append(m, p), true
	case 1, 2:
		if o.pos < 0 || o.pos > n {
			return m, false
		}
		if o.kind == 2 || o.pos == n {
			m = append(m, geo.Point{})
			copy(m[o.pos+1:], m[o.pos:])
		}
		m[o.pos] = p
		return m, true
	case 3:
		if o.pos < 0 || o.pos >= n {
			return m, false
		}
		return append(m[:o.pos], m[o.pos+1:]...), true
	}
	for i := 0; i < n/2; i++ {
		m[i], m[n-1-i] = m[n-1-i], m[i]
	}
	return m, true
}

func (o lop) applyReal(l *geo.LineString) error {
	p := lAlpha[o.pt]
	switch o.kind {
	case 0:
		return l.Append(p)
	case 1:
		return l.SetPoint(o.pos, p)
	case 2:
		return l.InsertPoint(o.pos, p)
	case 3:
		return l.DelPoint(o.pos)
	}
	l.Reverse()
	return nil
}

func (li *lineInst) Apply(t *T, op int) bool {
	o := lineOps(li.mx)[op]
	if o.pos > len(li.model)+2 {
		return false
	}
	m, ok := o.applyModel(li.model)
	if len(m) > li.mx {
		return false
	}
	err := o.applyReal(&li.line)
	if (err == nil) != ok {
		t.Failf("error", "%v on a line of %d points: error %v", o, len(li.model), err)
	}
	li.model = m
	if !ptsSame(li.line, m) {
		t.Failf("list", "after %v the line is %v, want %v", o, li.line, m)
	}
	if o.kind == 0 && len(li.zm) < 3 {
		q := geo.PointZ{X: lAlpha[o.pt].X, Y: lAlpha[o.pt].Y, Z: float64(len(li.zm))}
		if err := li.z.Append(q); err != nil {
			t.Failf("error", "LineStringZ.Append: %v", err)
		}
		li.zm = append(li.zm, q)
	} else if o.kind == 4 {
		li.z.Reverse()
		for i, n := 0, len(li.zm); i < n/2; i++ {
			li.zm[i], li.zm[n-1-i] = li.zm[n-1-i], li.zm[i]
		}
	}
	if !ptsSameZ(li.z, li.zm) {
		t.Failf("list-z", "after %v the 3D line is %v, want %v", o, li.z, li.zm)
	}
	return true
}

func (li *lineInst) Key() string {
	return fmt.Sprint(li.model, cap(li.line), len(li.zm) > 0, li.zm, cap(li.z))
}

func (li *lineInst) Check(t *T) {
	l, m := li.line, li.model
	n := len(m)
	t.ops += 8
	if l.GetPointCount() != n || !ptsSame(l.GetPointSet(), m) {
		t.Failf("count", "GetPointCount %d, GetPointSet %v of %v", l.GetPointCount(), l.GetPointSet(), m)
	}
	if (l.Verify() == nil) != (n >= 2) {
		t.Failf("verify", "Verify of a line of %d points: %v", n, l.Verify())
	}
	f, e := l.GetFirstPoint(), l.GetEndPoint()
	if n < 2 {
		if f != nil || e != nil {
			t.Failf("ends", "ends of a line of %d points: %v %v", n, f, e)
		}
	} else if f == nil || e == nil || *f != m[0] || *e != m[n-1] {
		t.Failf("ends", "ends of %v: %v %v", m, f, e)
	}
	for i := -3; i <= n+3; i++ {
		p := l.GetPoint(i)
		if i < 0 || i >= n {
			if p != nil {
				t.Failf("get", "GetPoint(%d) of %d points = %v", i, n, *p)
			}
		} else if p == nil || *p != m[i] {
			t.Failf("get", "GetPoint(%d) of %v = %v", i, m, p)
		}
	}
	z, zm := li.z, li.zm
	if z.GetPointCount() != len(zm) || !ptsSameZ(z.GetPointSet(), zm) {
		t.Failf("count-z", "3D: %d points %v, want %v", z.GetPointCount(), z.GetPointSet(), zm)
	}
	if len(zm) >= 2 && (z.GetFirstPoint() != zm[0] || z.GetEndPoint() != zm[len(zm)-1]) {
		t.Failf("ends-z", "3D ends %v %v of %v", z.GetFirstPoint(), z.GetEndPoint(), zm)
	}
}

// ------------------------------------------------------------------ L02 helpers

func wantRing(p []geo.Point) []geo.Point {
	if len(p) < 2 {
		return nil
	}
	r := append([]geo.Point{}, p...)
	if !ptEq(p[0], p[len(p)-1]) {
		r = append(r, p[0])
	}
	return r
}

func init() {
	register(&Prop{ID: "L01", Rule: "breadth-first search over all sequences of editing operations on the real line, compared with a list model after every operation (states distinguished by contents and spare capacity); container types: every operation sequence up to a depth", Assum: []string{"a LineString is edited through one variable at a time"}, Run: func(c *Ctx) {
		mx := Pick(c, 4, 5)
		ops := lineOps(mx)
		for _, init := range []int{0, 3} {
			init := init
			c.BFS(&System{Name: fmt.Sprintf("lines of up to %d points from %d points", mx, init), NOps: len(ops), Depth: 40, Max: Pick[int64](c, 60000, 1000000),
				OpStr: func(o int) string { return ops[o].String() },
				New: func() Inst {
					li := &lineInst{mx: mx}
					if init > 0 {
						li.line = *geo.NewLineString(lAlpha[:init]...)
						li.model = append(li.model, lAlpha[:init]...)
					}
					return &lineCap{*li}
				}})
		}
		// lines grown point by point to some length, then cut down again: every position is passed through
		ln := sizes(0, Pick(c, 72, 200, 400), Pick(c, 130, 514, 1026))
		grow := []func(l *geo.LineString, k int, p geo.Point) (pos int, err error){
			func(l *geo.LineString, k int, p geo.Point) (int, error) { return k, l.Append(p) },
			func(l *geo.LineString, k int, p geo.Point) (int, error) { return 0, l.InsertPoint(0, p) },
			func(l *geo.LineString, k int, p geo.Point) (int, error) { return k / 2, l.InsertPoint(k/2, p) },
			func(l *geo.LineString, k int, p geo.Point) (int, error) { return k, l.InsertPoint(k, p) },
			func(l *geo.LineString, k int, p geo.Point) (int, error) { return k, l.SetPoint(k, p) },
			func(l *geo.LineString, k int, p geo.Point) (int, error) {
				return k * 7 % (k + 1), l.InsertPoint(k*7%(k+1), p)
			},
		}
		cut := []func(n int) int{
			func(n int) int { return n - 1 }, func(n int) int { return 0 }, func(n int) int { return n / 2 },
			func(n int) int { return n / 4 }, func(n int) int { return n * 3 / 4 }, func(n int) int { return n * 5 % 7 % n },
		}
		c.Enum("long lines grown and cut down", Product([]int{len(ln), len(grow), len(cut), 3}), func(i int64, t *T) {
			d := Radix(i, []int{len(ln), len(grow), len(cut), 3}, nil)
			d[0] = ln[d[0]]
			t.Desc(func() string { return fmt.Sprintf("%d points, growth %d, cuts %d, variant %d", d[0], d[1], d[2], d[3]) })
			var l geo.LineString
			var m []geo.Point
			same := func(what string) {
				t.ops++
				if !ptsSame(l, m) || l.GetPointCount() != len(m) {
					t.Failf("list", "after %s the line is %v, want %v", what, l, m)
				}
				if n := len(m); n >= 2 && (*l.GetFirstPoint() != m[0] || *l.GetEndPoint() != m[n-1]) {
					t.Failf("ends", "after %s the ends are %v and %v, want %v and %v", what, l.GetFirstPoint(), l.GetEndPoint(), m[0], m[n-1])
				}
			}
			for k := 0; k < d[0]; k++ {
				p := geo.Point{X: float64(k), Y: float64(k * k % 101)}
				pos, err := grow[d[1]](&l, k, p)
				if err != nil {
					t.Failf("error", "growing at point %d: %v", k, err)
				}
				m = append(m, p)
				copy(m[pos+1:], m[pos:])
				m[pos] = p
				same("growing")
			}
			if d[3] == 1 { // start the cuts from exactly sized storage
				l = *geo.NewLineString(l...)
				same("NewLineString")
			} else if d[3] == 2 {
				l.Reverse()
				for i, n := 0, len(m); i < n/2; i++ {
					m[i], m[n-1-i] = m[n-1-i], m[i]
				}
				same("Reverse")
			}
			for k := 0; len(m) > 0; k++ {
				pos := cut[d[2]](len(m))
				if err := l.DelPoint(pos); err != nil {
					t.Failf("error", "DelPoint(%d) of %d points: %v", pos, len(m), err)
				}
				m = append(m[:pos], m[pos+1:]...)
				same(fmt.Sprintf("DelPoint(%d)", pos))
				if k%5 == 4 && len(m) > 0 {
					p := geo.Point{X: -float64(k), Y: 0.5}
					if err := l.SetPoint(pos%len(m), p); err != nil {
						t.Failf("error", "SetPoint: %v", err)
					}
					m[pos%len(m)] = p
					same("SetPoint")
				}
				if k%9 == 8 {
					if err := l.Append(geo.Point{X: 5000, Y: float64(k)}); err != nil {
						t.Failf("error", "Append: %v", err)
					}
					m = append(m, geo.Point{X: 5000, Y: float64(k)})
					same("Append")
				}
			}
			if l.DelPoint(0) == nil {
				t.Failf("error", "DelPoint of an empty line succeeds")
			}
			t.Trace()
		})
		c.Enum("long 3D lines and containers", int64(len(ln)), func(i int64, t *T) {
			n := ln[i]
			t.Desc(func() string { return fmt.Sprint(n, " points") })
			var l geo.LineStringZ
			var mp geo.MultiPoint
			var mz geo.MultiPointZ
			var pl geo.Polygon
			var pz geo.PolygonZ
			var ml geo.MultiPolygon
			var mlz geo.MultiPolygonZ
			var wm []geo.Point
			var wz []geo.PointZ
			for k := 0; k < n; k++ {
				p, z := geo.Point{X: float64(k), Y: 1}, geo.PointZ{X: float64(k), Y: 1, Z: float64(-k)}
				wm, wz = append(wm, p), append(wz, z)
				l.Append(z)
				mp.Append(p)
				mz.Append(z)
				r, rz := geo.LinearRing{p, {X: 2000, Y: 9}, {X: -9, Y: 3}, p}, geo.LinearRingZ{z, {X: 2000, Y: 9}, {X: -9, Y: 3}, z}
				pl.AddInteriorRing(r)
				pz.AddInteriorRing(rz)
				ml.AddPolygon(geo.Polygon{r})
				mlz.AddPolygonZ(geo.PolygonZ{rz})
				t.ops += 7
				if !ptsSameZ(l, wz) || !ptsSame(mp, wm) || !ptsSameZ(mz, wz) || l.GetPointCount() != k+1 {
					t.Failf("append", "after %d appends: %v %v %v", k+1, l, mp, mz)
				}
			}
			ok := len(pl) == n && len(pz) == n && len(ml) == n && len(mlz) == n
			for k := 0; ok && k < n; k++ {
				x := float64(k)
				ok = pl[k][0].X == x && pz[k][0].X == x && ml[k][0][0].X == x && mlz[k][0][0].X == x
			}
			if !ok {
				t.Failf("append", "%d parts added: %v %v %v %v", n, pl, pz, ml, mlz)
			}
			if n > 0 {
				if len(pl.GetInteriorRing()) != n-1 || len(pz.GetInteriorRing()) != n-1 {
					t.Failf("interior", "%d interior rings, want %d", len(pl.GetInteriorRing()), n-1)
				}
				for k, h := range pl.GetInteriorRing() {
					if h[0].X != float64(k+1) || pz.GetInteriorRing()[k][0].X != float64(k+1) {
						t.Failf("interior", "interior ring %d = %v", k, h)
					}
				}
			}
			l.Reverse()
			for k := range l {
				if l[k] != wz[n-1-k] {
					t.Failf("reverse-z", "Reverse of %v = %v", wz, l)
				}
			}
			t.Trace()
		})
		// Equal
		offs := []float64{0, 9e-7, -9e-7, 1.1e-6, -1.1e-6, 1}
		base := []geo.Point{{X: 1, Y: 2}, {X: -3, Y: 4}, {X: 113.25, Y: 23.5}, {X: 0, Y: 0}}
		no := len(offs)
		c.Enum("Equal of two points and lines", Product([]int{no, no, no, 4, 5}), func(i int64, t *T) {
			d := Radix(i, []int{no, no, no, 4, 5}, nil)
			k := d[3]
			a := clonePts(base)
			b := clonePts(base)
			b[k].X += offs[d[0]]
			b[k].Y += offs[d[1]]
			b = b[:min(len(b), d[4])]
			za, zb := make(geo.LineStringZ, 0), make(geo.LineStringZ, 0)
			for _, p := range a {
				za = append(za, geo.PointZ{X: p.X, Y: p.Y, Z: 5})
			}
			for _, p := range b {
				zb = append(zb, geo.PointZ{X: p.X, Y: p.Y, Z: 5})
			}
			small := func(v float64) bool { return v < 1e-6 && v > -1e-6 }
			want := d[4] == 4 && small(offs[d[0]]) && small(offs[d[1]])
			wantZ := want && small(offs[d[2]])
			if k < len(zb) {
				zb[k].Z += offs[d[2]]
			}
			t.Desc(func() string { return fmt.Sprint(a, b, za, zb) })
			t.ops += 6
			if geo.LineString(a).Equal(b) != want || geo.LineString(b).Equal(a) != want {
				t.Failf("equal", "%v Equal %v = %v, other way %v, want %v", a, b, geo.LineString(a).Equal(b), geo.LineString(b).Equal(a), want)
			}
			if za.Equal(zb) != wantZ || zb.Equal(za) != wantZ {
				t.Failf("equal-z", "%v Equal %v = %v, want %v", za, zb, za.Equal(zb), wantZ)
			}
			if k < len(b) {
				if a[k].Equal(b[k]) != (small(offs[d[0]]) && small(offs[d[1]])) {
					t.Failf("equal-point", "%v Equal %v = %v", a[k], b[k], a[k].Equal(b[k]))
				}
				if za[k].Equal(zb[k]) != (small(offs[d[0]]) && small(offs[d[1]]) && small(offs[d[2]])) {
					t.Failf("equal-pointz", "%v Equal %v = %v", za[k], zb[k], za[k].Equal(zb[k]))
				}
			}
			t.Trace()
		})
		// lines that differ in one position, of every length
		ne1 := Pick(c, 40, 90, 200)
		deltas := []geo.PointZ{{}, {X: 9e-7}, {X: 1.1e-6}, {Y: -1.1e-6}, {Z: 1.1e-6}, {X: 1e-5, Y: -1e-5}, {X: -7, Y: 7}, {X: 1e9}}
		c.Enum("Equal of lines that differ in one position", Product([]int{ne1, ne1, len(deltas), 2}), func(i int64, t *T) {
			d := Radix(i, []int{ne1, ne1, len(deltas), 2}, nil)
			n, k, e := d[0]+1, d[1], deltas[d[2]]
			if k >= n {
				t.Out("no such position")
				return
			}
			t.Desc(func() string { return fmt.Sprintf("%d points, position %d moved by %v", n, k, e) })
			var a, b geo.LineString
			var za, zb geo.LineStringZ
			for j := 0; j < n; j++ {
				q := geo.PointZ{X: float64(j % 7), Y: float64(j * j % 11), Z: float64(-j)}
				if d[3] == 1 {
					q = geo.PointZ{X: 1, Y: 2, Z: 3}
				}
				a, za = append(a, geo.Point{X: q.X, Y: q.Y}), append(za, q)
				if j == k {
					q = geo.PointZ{X: q.X + e.X, Y: q.Y + e.Y, Z: q.Z + e.Z}
				}
				b, zb = append(b, geo.Point{X: q.X, Y: q.Y}), append(zb, q)
			}
			small := func(v float64) bool { return v < 1e-6 && v > -1e-6 }
			want := small(e.X) && small(e.Y)
			wantZ := want && small(e.Z)
			t.ops += 4
			if x, y := a.Equal(b), b.Equal(a); x != want || y != want {
				t.Failf("equal", "%v Equal %v = %v, other way %v, want %v", a, b, x, y, want)
			}
			if x, y := za.Equal(zb), zb.Equal(za); x != wantZ || y != wantZ {
				t.Failf("equal-z", "%v Equal %v = %v, other way %v, want %v", za, zb, x, y, wantZ)
			}
			t.Trace()
		})
		// containers
		depth := Pick(c, 6, 8)
		c.Enum("containers", Pow(3, depth), func(i int64, t *T) {
			dg := Digits(i, 3, depth, nil)
			t.Desc(func() string { return fmt.Sprint("operation sequence ", dg) })
			var mp geo.MultiPoint
			var mz geo.MultiPointZ
			var pl geo.Polygon
			var pz geo.PolygonZ
			var mpl geo.MultiPolygon
			var mplz geo.MultiPolygonZ
			var wm []geo.Point
			var wz []geo.PointZ
			var wp []geo.LinearRing
			var wpz []geo.LinearRingZ
			for s, o := range dg {
				p := geo.Point{X: float64(s), Y: float64(o)}
				q := geo.PointZ{X: float64(s), Y: float64(o), Z: 7}
				r := geo.LinearRing{p, {X: 9, Y: 9}, {X: -9, Y: 3}, p}
				rz := geo.LinearRingZ{q, {X: 9, Y: 9}, {X: -9, Y: 3}, q}
				t.ops += 6
				switch o {
				case 0:
					mp.Append(p)
					mz.Append(q)
					wm, wz = append(wm, p), append(wz, q)
					pl.SetExteriorRing(r)
					pz.SetExteriorRing(rz)
					if len(wp) == 0 {
						wp, wpz = append(wp, r), append(wpz, rz)
					} else {
						wp[0], wpz[0] = r, rz
					}
				case 1:
					pl.AddInteriorRing(r)
					pz.AddInteriorRing(rz)
					wp, wpz = append(wp, r), append(wpz, rz)
				case 2:
					mpl.AddPolygon(geo.Polygon{r})
					mplz.AddPolygonZ(geo.PolygonZ{rz})
				}
				if !ptsSame(mp, wm) || !ptsSameZ(mz, wz) || !ptsSame(mp.GetPointSet(), wm) || !ptsSameZ(mz.GetPointSet(), wz) {
					t.Failf("append", "MultiPoint %v %v, want %v %v", mp, mz, wm, wz)
				}
				if len(pl) != len(wp) || len(pz) != len(wpz) {
					t.Failf("rings", "polygon of %d and %d rings, want %d", len(pl), len(pz), len(wp))
				}
				for k := range wp {
					if !ptsSame(pl[k], wp[k]) || !ptsSameZ(pz[k], wpz[k]) {
						t.Failf("rings", "ring %d = %v %v, want %v %v", k, pl[k], pz[k], wp[k], wpz[k])
					}
				}
				if len(wp) > 0 {
					if !ptsSame(pl.GetExteriorRing(), wp[0]) || !ptsSame(pl.GetExteriorPoints(), wp[0]) || !ptsSameZ(pz.GetExteriorRing(), wpz[0]) || !ptsSameZ(pz.GetExteriorPoints(), wpz[0]) {
						t.Failf("exterior", "GetExteriorRing %v", pl.GetExteriorRing())
					}
					if len(pl.GetInteriorRing()) != len(wp)-1 || len(pz.GetInteriorRing()) != len(wp)-1 {
						t.Failf("interior", "GetInteriorRing has %d rings, want %d", len(pl.GetInteriorRing()), len(wp)-1)
					}
					for k, h := range pl.GetInteriorRing() {
						if !ptsSame(h, wp[k+1]) || !ptsSameZ(pz.GetInteriorRing()[k], wpz[k+1]) {
							t.Failf("interior", "interior ring %d = %v", k, h)
						}
					}
				} else if pl.GetExteriorRing() != nil || pl.GetInteriorRing() != nil || pz.GetExteriorRing() != nil {
					t.Failf("empty", "the empty polygon has rings")
				}
			}
			n := 0
			for s, o := range dg {
				if o == 2 {
					if n >= len(mpl) || n >= len(mplz) || mpl[n][0][0] != (geo.Point{X: float64(s), Y: 2}) || mplz[n][0][0].X != float64(s) {
						t.Failf("add", "AddPolygon: %v %v", mpl, mplz)
					}
					n++
				}
			}
			if len(mpl) != n || len(mplz) != n {
				t.Failf("add", "%d and %d polygons, want %d", len(mpl), len(mplz), n)
			}
			p, z := geo.NewPoint(1, 2), geo.NewPointZ(1, 2, 3)
			p.SetX(5)
			z.SetX(6)
			p.SetY(7)
			z.SetY(8)
			z.SetZ(9)
			if *p != (geo.Point{X: 5, Y: 7}) || *z != (geo.PointZ{X: 6, Y: 8, Z: 9}) {
				t.Failf("set", "after SetX, SetY, SetZ: %v %v", *p, *z)
			}
			t.Trace()
		})
	}})

	// ------------------------------------------------------------ L02
	register(&Prop{ID: "L02", Rule: "every sequence of points over a small alphabet (with repeated, nearly equal and distinct points) and every constructor", Assum: []string{"points are Equal when their coordinates differ by less than 1e-6"}, Run: func(c *Ctx) {
		alpha := []geo.Point{{X: 0, Y: 0}, {X: 5e-7, Y: -5e-7}, {X: 2, Y: 1}, {X: -1, Y: 3}, {X: 2, Y: 1.5e-6}, {X: 1.5e-6, Y: 0}}
		na := len(alpha)
		for n := 0; n <= Pick(c, 6, 7, 8); n++ {
			n := n
			c.Enum(fmt.Sprintf("sequences of %d points", n), Pow(na, n), func(i int64, t *T) {
				var p []geo.Point
				for _, k := range Digits(i, na, n, nil) {
					p = append(p, alpha[k])
				}
				z := []geo.PointZ{}
				for k, v := range p {
					q := geo.PointZ{X: v.X, Y: v.Y, Z: 3}
					if k == n-1 && i%3 == 1 {
						q.Z = 4 // differs from the first in Z only
					}
					z = append(z, q)
				}
				t.Desc(func() string { return fmt.Sprint(p, z) })
				want := wantRing(p)
				is := func(name string, got []geo.Point, w []geo.Point) {
					t.ops++
					if !ptsSame(got, w) {
						t.Failf("ring", "%s(%v) = %v, want %v", name, p, got, w)
					}
				}
				isr := func(name string, got *geo.LinearRing) {
					t.ops++
					if (got == nil) != (want == nil) {
						t.Failf("ring", "%s(%v) = %v, want %v", name, p, got, want)
					}
					if got != nil {
						is(name, *got, want)
						is(name+" GetPointSet", got.GetPointSet(), want)
						is(name+" ToLineString", got.ToLineString(), want)
						if got.GetPointCount() != len(want) {
							t.Failf("count", "%s: GetPointCount %d", name, got.GetPointCount())
						}
					}
				}
				isr("NewLinearRing", geo.NewLinearRing(p...))
				isr("NewRingFromLine", geo.NewRingFromLine(geo.LineString(clonePts(p))))
				is("ToRing", geo.LineString(clonePts(p)).ToRing(), want)
				is("NewLineString", *geo.NewLineString(p...), p)
				is("NewMultiPoint", *geo.NewMultiPoint(p...), p)
				poly := *geo.NewPolygonFromPois(p...)
				if want == nil {
					if len(poly) != 0 {
						t.Failf("poly", "NewPolygonFromPois(%v) = %v", p, poly)
					}
				} else if len(poly) != 1 {
					t.Failf("poly", "NewPolygonFromPois(%v) = %v", p, poly)
				} else {
					is("NewPolygonFromPois", poly[0], want)
				}
				// 3D
				var wz []geo.PointZ
				if n >= 2 {
					wz = append(wz, z...)
					if !(ptEq(geo.Point{X: z[0].X, Y: z[0].Y}, geo.Point{X: z[n-1].X, Y: z[n-1].Y}) && z[0].Z == z[n-1].Z) {
						wz = append(wz, z[0])
					}
				}
				isz := func(name string, got []geo.PointZ, w []geo.PointZ) {
					t.ops++
					if !ptsSameZ(got, w) {
						t.Failf("ring-z", "%s(%v) = %v, want %v", name, z, got, w)
					}
				}
				isz("NewLineStringZ", *geo.NewLineStringZ(z...), z)
				isz("NewMultiPointZ", *geo.NewMultiPointZ(z...), z)
				for k, r := range []*geo.LinearRingZ{geo.NewLinearRingZ(z...), geo.NewRingFromLineZ(geo.LineStringZ(clonePtsZ(z)))} {
					if (r == nil) != (wz == nil) {
						t.Failf("ring-z", "3D ring constructor %d of %v = %v", k, z, r)
					}
					if r != nil {
						isz("3D ring", *r, wz)
						isz("3D ring GetPointSet", r.GetPointSet(), wz)
						isz("3D ring ToLineString", r.ToLineString(), wz)
						if r.GetPointCount() != len(wz) {
							t.Failf("count", "3D: GetPointCount %d", r.GetPointCount())
						}
					}
				}
				isz("LineStringZ.ToRing", geo.LineStringZ(clonePtsZ(z)).ToRing(), wz)
				pz := *geo.NewPolygonZFromPois(z...)
				if wz == nil && len(pz) != 0 || wz != nil && len(pz) != 1 {
					t.Failf("poly-z", "NewPolygonZFromPois(%v) = %v", z, pz)
				}
				if wz != nil {
					isz("NewPolygonZFromPois", pz[0], wz)
				}
				// composite constructors keep their parts in order
				if n >= 1 {
					var rs []geo.LinearRing
					var rz []geo.LinearRingZ
					var ls []geo.LineString
					var lz []geo.LineStringZ
					var ps []geo.Polygon
					var pzs []geo.PolygonZ
					for k := 0; k < n; k++ {
						rs, rz = append(rs, geo.LinearRing(clonePts(p[k:]))), append(rz, geo.LinearRingZ(clonePtsZ(z[k:])))
						ls, lz = append(ls, geo.LineString(clonePts(p[k:]))), append(lz, geo.LineStringZ(clonePtsZ(z[k:])))
						ps, pzs = append(ps, geo.Polygon{rs[k]}), append(pzs, geo.PolygonZ{rz[k]})
					}
					for _, pair := range [][2]interface{}{
						{*geo.NewPolygon(rs...), geo.Polygon(rs)}, {*geo.NewPolygonZ(rz...), geo.PolygonZ(rz)},
						{*geo.NewMultiLineString(ls...), geo.MultiLineString(ls)}, {*geo.NewMultiLineStringZ(lz...), geo.MultiLineStringZ(lz)},
						{*geo.NewMultiPolygon(ps...), geo.MultiPolygon(ps)}, {*geo.NewMultiPolygonZ(pzs...), geo.MultiPolygonZ(pzs)},
					} {
						t.ops++
						if !reflect.DeepEqual(pair[0], pair[1]) {
							t.Failf("parts", "constructor made %v from %v", pair[0], pair[1])
						}
					}
				}
				t.Trace()
			})
		}
		c.Enum("long sequences", int64(Pick(c, 260, 1200, 4000))*4, func(i int64, t *T) {
			n, v := int(i/4), int(i%4)
			var p []geo.Point
			var z []geo.PointZ
			for k := 0; k < n; k++ {
				p = append(p, geo.Point{X: float64(k), Y: float64(k * k % 89)})
			}
			switch {
			case n > 1 && v == 1: // closed
				p[n-1] = p[0]
			case n > 1 && v == 2: // equal to the first within the library's resolution
				p[n-1] = geo.Point{X: p[0].X + 4e-7, Y: p[0].Y - 4e-7}
			case n > 3 && v == 3: // repeated points
				for k := 2; k < n-1; k += 3 {
					p[k] = p[k-1]
				}
			}
			for k, q := range p {
				z = append(z, geo.PointZ{X: q.X, Y: q.Y, Z: float64(k % 3)})
			}
			t.Desc(func() string { return fmt.Sprintf("%d points, variant %d", n, v) })
			want := wantRing(p)
			var wz []geo.PointZ
			if n >= 2 {
				wz = append(wz, z...)
				if !ptEq(p[0], p[n-1]) || z[0].Z != z[n-1].Z {
					wz = append(wz, z[0])
				}
			}
			is := func(name string, got, w []geo.Point) {
				t.ops++
				if !ptsSame(got, w) {
					t.Failf("ring", "%s(%v) = %v, want %v", name, p, got, w)
				}
			}
			isz := func(name string, got, w []geo.PointZ) {
				t.ops++
				if !ptsSameZ(got, w) {
					t.Failf("ring-z", "%s(%v) = %v, want %v", name, z, got, w)
				}
			}
			is("NewLineString", *geo.NewLineString(p...), p)
			is("NewMultiPoint", *geo.NewMultiPoint(p...), p)
			isz("NewLineStringZ", *geo.NewLineStringZ(z...), z)
			isz("NewMultiPointZ", *geo.NewMultiPointZ(z...), z)
			if n >= 2 {
				is("NewLinearRing", *geo.NewLinearRing(p...), want)
				is("NewRingFromLine", *geo.NewRingFromLine(geo.LineString(clonePts(p))), want)
				is("ToRing", geo.LineString(clonePts(p)).ToRing(), want)
				is("NewPolygonFromPois", geo.NewPolygonFromPois(p...).GetExteriorPoints(), want)
				isz("NewLinearRingZ", *geo.NewLinearRingZ(z...), wz)
				isz("NewRingFromLineZ", *geo.NewRingFromLineZ(geo.LineStringZ(clonePtsZ(z))), wz)
				isz("LineStringZ.ToRing", geo.LineStringZ(clonePtsZ(z)).ToRing(), wz)
				isz("NewPolygonZFromPois", geo.NewPolygonZFromPois(z...).GetExteriorPoints(), wz)
			}
			var ls []geo.LineString
			var rs []geo.LinearRing
			var ps []geo.Polygon
			var lz []geo.LineStringZ
			var rz []geo.LinearRingZ
			var pz []geo.PolygonZ
			for k := 0; k+2 <= n; k += 1 + n/40 {
				ls, rs, lz, rz = append(ls, p[k:k+2]), append(rs, p[k:k+2]), append(lz, z[k:k+2]), append(rz, z[k:k+2])
				ps, pz = append(ps, geo.Polygon{p[k : k+2]}), append(pz, geo.PolygonZ{z[k : k+2]})
			}
			if len(ls) > 0 {
				t.ops += 6
				for _, pair := range [][2]interface{}{
					{*geo.NewPolygon(rs...), geo.Polygon(rs)}, {*geo.NewPolygonZ(rz...), geo.PolygonZ(rz)},
					{*geo.NewMultiLineString(ls...), geo.MultiLineString(ls)}, {*geo.NewMultiLineStringZ(lz...), geo.MultiLineStringZ(lz)},
					{*geo.NewMultiPolygon(ps...), geo.MultiPolygon(ps)}, {*geo.NewMultiPolygonZ(pz...), geo.MultiPolygonZ(pz)},
				} {
					if !reflect.DeepEqual(pair[0], pair[1]) {
						t.Failf("parts", "constructor made %v from %v", pair[0], pair[1])
					}
				}
			}
			for k := 0; k < n; k += 1 + n/9 {
				a, b := geo.LineString(p).SplitByIndex(k)
				is("SplitByIndex, first part", a, p[:k+1])
				is("SplitByIndex, second part", b, p[k:])
			}
			t.Trace()
		})
		c.Enum("types and reference systems", 1, func(i int64, t *T) {
			t.Desc(func() string { return "Type() and SetSrid of every geometry" })
			for _, p := range []struct {
				g geo.Geometry
				s geo.GeometryType
			}{
				{geo.Point{}, "Point"}, {geo.MultiPoint{}, "MultiPoint"}, {geo.LineString{}, "LineString"}, {geo.MultiLineString{}, "MultiLineString"}, {geo.Polygon{}, "Polygon"}, {geo.MultiPolygon{}, "MultiPolygon"}, {geo.Collection{}, geo.GEOMETRY_COLLECTION},
				{geo.PointZ{}, geo.GEOMETRY_POINTZ}, {geo.MultiPointZ{}, geo.GEOMETRY_MULTIPOINTZ}, {geo.LineStringZ{}, geo.GEOMETRY_LINESTRINGZ}, {geo.MultiLineStringZ{}, geo.GEOMETRY_MULTILINESTRINGZ}, {geo.PolygonZ{}, geo.GEOMETRY_POLYGONZ}, {geo.MultiPolygonZ{}, geo.GEOMETRY_MULTIPOLYGONZ},
			} {
				if p.g.Type() != p.s {
					t.Failf("type", "%T has Type %q, want %q", p.g, p.g.Type(), p.s)
				}
			}
			geo.MultiPoint{}.SetSrid(4326)
			geo.Polygon{}.SetSrid(4326)
			geo.MultiLineString{}.SetSrid(3857)
			geo.MultiLineStringZ{}.SetSrid(3857)
			geo.MultiPolygon{}.SetSrid(3857)
			t.ops += 18
			t.Trace()
		})
	}})

	// ------------------------------------------------------------ L03
	type maker struct {
		name string
		// from the line (which may have spare capacity) make values with their expected contents
		make func(l geo.LineString) (out []*geo.LineString, want [][]geo.Point, ok bool)
	}
	single := func(f func(l geo.LineString) []geo.Point, w func(p []geo.Point) []geo.Point) func(l geo.LineString) ([]*geo.LineString, [][]geo.Point, bool) {
		return func(l geo.LineString) ([]*geo.LineString, [][]geo.Point, bool) {
			wt := append([]geo.Point{}, w(append([]geo.Point{}, l...))...)
			r := geo.LineString(f(l))
			return []*geo.LineString{&r}, [][]geo.Point{wt}, true
		}
	}
	same := func(p []geo.Point) []geo.Point { return p }
	makers := []maker{
		{"NewLineString", single(func(l geo.LineString) []geo.Point { return *geo.NewLineString(l...) }, same)},
		{"NewMultiPoint", single(func(l geo.LineString) []geo.Point { return *geo.NewMultiPoint(l...) }, same)},
		{"NewLinearRing", single(func(l geo.LineString) []geo.Point {
			if r := geo.NewLinearRing(l...); r != nil {
				return *r
			}
			return nil
		}, wantRing)},
		{"NewPolygonFromPois", single(func(l geo.LineString) []geo.Point { return geo.NewPolygonFromPois(l...).GetExteriorPoints() }, wantRing)},
		{"DouglasPeuckerSimplify", single(func(l geo.LineString) []geo.Point { return geo.DouglasPeuckerSimplify(l, 0, 0) }, func(p []geo.Point) []geo.Point {
			return geo.DouglasPeuckerSimplify(append(geo.LineString{}, p...), 0, 0)
		})},
		{"ConvexHull", func(l geo.LineString) ([]*geo.LineString, [][]geo.Point, bool) {
			h := geo.ConvexHull(l...)
			if len(h) == 0 {
				return nil, nil, true
			}
			r := geo.LineString(h[0])
			return []*geo.LineString{&r}, [][]geo.Point{append([]geo.Point{}, h[0]...)}, true
		}},
		// closing an open line makes new storage
		{"ToRing of an open line", func(l geo.LineString) ([]*geo.LineString, [][]geo.Point, bool) {
			if len(l) < 2 || ptEq(l[0], l[len(l)-1]) {
				return nil, nil, false
			}
			w := wantRing(append([]geo.Point{}, l...))
			r := geo.LineString(l.ToRing())
			return []*geo.LineString{&r}, [][]geo.Point{w}, true
		}},
		{"NewRingFromLine of an open line", func(l geo.LineString) ([]*geo.LineString, [][]geo.Point, bool) {
			if len(l) < 2 || ptEq(l[0], l[len(l)-1]) {
				return nil, nil, false
			}
			w := wantRing(append([]geo.Point{}, l...))
			r := geo.LineString(*geo.NewRingFromLine(l))
			return []*geo.LineString{&r}, [][]geo.Point{w}, true
		}},
	}
	for k := 0; k < 6; k++ {
		k := k
		makers = append(makers, maker{fmt.Sprintf("SplitByIndex(%d)", k), func(l geo.LineString) ([]*geo.LineString, [][]geo.Point, bool) {
			if k >= len(l) {
				return nil, nil, false
			}
			w := [][]geo.Point{append([]geo.Point{}, l[:k+1]...), append([]geo.Point{}, l[k:]...)}
			a, b := l.SplitByIndex(k)
			return []*geo.LineString{&a, &b}, w, true
		}})
	}
	register(&Prop{ID: "L03", Rule: "every constructor or splitting operation x line length x spare capacity, followed by every sequence of editing operations on any of the values (the line given and the values made), each value compared with its own list model after every step", Assum: []string{"a LinearRing made from a line that is already closed may share its points (Go slice conversion)"}, Run: func(c *Ctx) {
		// edits applied to one of up to three values
		edits := []lop{{0, 0, 1}, {1, 0, 2}, {2, 0, 1}, {2, 1, 2}, {3, 0, 0}, {4, 0, 0}, {1, 1, 2}, {3, 1, 0}}
		depth := Pick(c, 3, 4)
		ne := len(edits) * 3
		src := []geo.Point{{X: 0, Y: 0}, {X: 4, Y: 1}, {X: 2, Y: 5}, {X: -1, Y: 2}, {X: 1, Y: 1}, {X: 0, Y: 0}}
		rad := []int{len(makers), 7, 4}
		nIn := Product(rad)
		c.Enum("values made from a line stay independent of it", nIn*Pow(ne, depth), func(i int64, t *T) {
			d := Radix(i%nIn, rad, nil)
			mk, n, spare := makers[d[0]], d[1], d[2]
			n = min(n, len(src))
			if d[1] == 6 {
				n = 5
			}
			var log []string
			t.Desc(func() string {
				return fmt.Sprintf("%s of %v with spare capacity %d; %s", mk.name, src[:n], spare, strings.Join(log, "; "))
			})
			store := make([]geo.Point, n+spare)
			copy(store, src[:n])
			if d[1] == 6 {
				store = make([]geo.Point, 6+spare)
				copy(store, src)
				n = 6
			}
			for k := n; k < len(store); k++ {
				store[k] = geo.Point{X: 77, Y: float64(k)}
			}
			line := geo.LineString(store[:n])
			vals := []*geo.LineString{&line}
			models := [][]geo.Point{append([]geo.Point{}, line...)}
			out, want, ok := mk.make(line)
			if !ok {
				return
			}
			vals, models = append(vals, out...), append(models, want...)
			for k := n; k < len(store); k++ {
				if store[k] != (geo.Point{X: 77, Y: float64(k)}) {
					t.Failf("spare", "%s wrote %v behind the end of the line it was given", mk.name, store[k])
				}
			}
			cmp := func() {
				for k := range vals {
					if !ptsSame(*vals[k], models[k]) {
						what := "the given line"
						if k > 0 {
							what = fmt.Sprintf("result %d", k)
						}
						t.Failf("alias", "%s is %v, want %v", what, *vals[k], models[k])
					}
				}
			}
			cmp()
			for _, e := range Digits(i/nIn, ne, depth, nil) {
				k, o := e%3, edits[e/3]
				if k >= len(vals) {
					return // covered by another index
				}
				log = append(log, fmt.Sprintf("value %d %v", k, o))
				m, ok := o.applyModel(models[k])
				err := o.applyReal(vals[k])
				t.ops++
				if ok != (err == nil) {
					t.Failf("error", "%v: %v", o, err)
				}
				models[k] = m
				cmp()
			}
			t.Trace()
		})
		// 3D rings and the spare capacity of the caller's line
		c.Enum("3D rings", Product([]int{6, 4}), func(i int64, t *T) {
			d := Radix(i, []int{6, 4}, nil)
			st := make([]geo.PointZ, d[0]+d[1])
			for k := range st {
				st[k] = geo.PointZ{X: float64(k), Y: float64(k * k), Z: 1}
			}
			before := append([]geo.PointZ{}, st...)
			l := geo.LineStringZ(st[:d[0]])
			t.Desc(func() string { return fmt.Sprint(l, " spare ", d[1]) })
			r := l.ToRing()
			for k := range r {
				r[k].Z = 99
			}
			rr := geo.NewRingFromLineZ(l)
			a, b := geo.NewLineStringZ(l...), geo.NewMultiPointZ(l...)
			for k := range *a {
				(*a)[k].X, (*b)[k].X = 55, 66
			}
			_ = rr
			t.ops += 4
			if !ptsSameZ(st, before) {
				t.Failf("spare-z", "3D constructors changed the caller's points to %v, were %v", st, before)
			}
			t.Trace()
		})
	}})
}

// lineCap makes the capacity of the slices part of the state.
type lineCap struct{ lineInst }
