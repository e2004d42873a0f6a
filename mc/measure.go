package main

// Boxes, areas, centroids (B01, B02, A01, A02).

import (
	"fmt"
	"math"
	"reflect"

	geo "github.com/hzw456/go-geo"
)

const measureRule = "every case of the stated finite spaces is enumerated on the real code and compared with an independent computation on integers (exact) or with direct formulas, under each coordinate transform"

// a transform with building-sized units far from the origin
var xfTiny = xf{"tiny units", 1.0 / (1 << 20), 1.0 / (1 << 20), 113.25, 23.5}

func near(a, b, tol float64) bool {
	return !math.IsNaN(a) && !math.IsNaN(b) && math.Abs(a-b) <= tol
}

func nearPt(a, b geo.Point, tol float64) bool { return near(a.X, b.X, tol) && near(a.Y, b.Y, tol) }

// zOf gives points a height that differs from point to point.
func zOf(p []geo.Point) []geo.PointZ {
	var r []geo.PointZ
	for i, v := range p {
		r = append(r, geo.PointZ{X: v.X, Y: v.Y, Z: float64(i)*1e7 - 5e6})
	}
	return r
}

func closePts(p []geo.Point) []geo.Point { return append(clonePts(p), p[0]) }

// geomsOf makes geometries of every type out of points (split in two parts at k where the type has parts).
func geomsOf(p []geo.Point, k int) map[string]geo.Geometry {
	z := zOf(p)
	m := map[string]geo.Geometry{}
	if len(p) == 1 {
		m["Point"], m["PointZ"] = p[0], z[0]
	}
	cl := func(v []geo.Point) geo.LinearRing { return geo.LinearRing(closePts(v)) }
	clz := func(v []geo.PointZ) geo.LinearRingZ { return geo.LinearRingZ(append(clonePtsZ(v), v[0])) }
	m["MultiPoint"], m["MultiPointZ"] = geo.MultiPoint(clonePts(p)), geo.MultiPointZ(clonePtsZ(z))
	m["LineString"], m["LineStringZ"] = geo.LineString(clonePts(p)), geo.LineStringZ(clonePtsZ(z))
	m["Polygon"], m["PolygonZ"] = geo.Polygon{cl(p)}, geo.PolygonZ{clz(z)}
	if k == 0 || k == len(p) {
		m["MultiLineString"], m["MultiLineStringZ"] = geo.MultiLineString{clonePts(p)}, geo.MultiLineStringZ{clonePtsZ(z)}
		m["MultiPolygon"], m["MultiPolygonZ"] = geo.MultiPolygon{{cl(p)}}, geo.MultiPolygonZ{{clz(z)}}
		m["Collection"] = geo.Collection{geo.LineString(clonePts(p))}
	} else {
		m["MultiLineString"], m["MultiLineStringZ"] = geo.MultiLineString{clonePts(p[:k]), clonePts(p[k:])}, geo.MultiLineStringZ{clonePtsZ(z[:k]), clonePtsZ(z[k:])}
		m["MultiPolygon"], m["MultiPolygonZ"] = geo.MultiPolygon{{cl(p[:k])}, {cl(p[k:])}}, geo.MultiPolygonZ{{clz(z[:k])}, {clz(z[k:])}}
		m["Collection"] = geo.Collection{geo.MultiPoint(clonePts(p[:k])), geo.PolygonZ{clz(z[k:])}}
	}
	return m
}

// otree is an ordered tree given by its children.
type otree []otree

// orderedTrees lists the ordered trees of at most n nodes.
func orderedTrees(n int) (r []otree) {
	by := map[int][]otree{}              // trees of exactly k nodes
	forests := map[int][]otree{0: {nil}} // lists of trees of exactly k nodes together
	for k := 1; k <= n; k++ {
		by[k] = forests[k-1]
		for first := 1; first <= k; first++ {
			for _, a := range by[first] {
				for _, b := range forests[k-first] {
					forests[k] = append(forests[k], append(otree{a}, b...))
				}
			}
		}
		r = append(r, by[k]...)
	}
	return
}

// moveGeom is a copy of g moved by (x, y).
func moveGeom(g geo.Geometry, x, y float64) geo.Geometry {
	var mv func(v reflect.Value) reflect.Value
	mv = func(v reflect.Value) reflect.Value {
		switch w := v.Interface().(type) {
		case geo.Point:
			return reflect.ValueOf(geo.Point{X: w.X + x, Y: w.Y + y})
		case geo.PointZ:
			return reflect.ValueOf(geo.PointZ{X: w.X + x, Y: w.Y + y, Z: w.Z})
		}
		if v.Kind() == reflect.Interface {
			return mv(v.Elem())
		}
		r := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(mv(v.Index(i)))
		}
		return r
	}
	return mv(reflect.ValueOf(g)).Interface().(geo.Geometry)
}

func init() {
	register(&Prop{ID: "B01", Rule: measureRule, Assum: []string{"coordinates are finite; the geometry has at least one point; holes lie inside their shell"}, Run: func(c *Ctx) {
		vals := []float64{-1 << 40, -3e9, -180, -1, -0.0078125, 0, 0.5, 2, 179.5, 5e9, 1 << 41}
		var pts []geo.Point
		for _, x := range vals {
			for _, y := range vals {
				pts = append(pts, geo.Point{X: x, Y: y})
			}
		}
		few := []geo.Point{}
		for _, x := range []float64{-3e9, -2.5, 0, 3e9} {
			for _, y := range []float64{-3e9, -7, 1.5, 3e9} {
				few = append(few, geo.Point{X: x, Y: y})
			}
		}
		check := func(t *T, p []geo.Point, k int) {
			want := refBox(p)
			gs := geomsOf(p, k)
			for _, name := range sortedKeys(gs) {
				g := gs[name]
				b := geo.BoundingBox(g)
				t.ops++
				if b == nil || b.MinX != want.x0 || b.MinY != want.y0 || b.MaxX != want.x1 || b.MaxY != want.y1 {
					t.Failf("bbox", "BoundingBox(%s %v) = %v, want %v", name, g, b, want)
				}
			}
			t.Trace()
		}
		run := func(name string, pts []geo.Point, n int) {
			c.Enum(name, Pow(len(pts), n)*int64(n), func(i int64, t *T) {
				k := int(i % int64(n))
				var d []int
				d = Digits(i/int64(n), len(pts), n, d)
				var p []geo.Point
				for _, v := range d {
					p = append(p, pts[v])
				}
				t.Desc(func() string { return fmt.Sprint(p, " split at ", k) })
				check(t, p, k)
			})
		}
		run("one point", pts, 1)
		run("two points", pts, 2)
		run("three points", few, 3)
		run("four points", few, Pick(c, 4, 5))
		// the extreme points at any two positions of a long sequence
		n := Pick(c, 24, 48, 64)
		c.Enum("extremes anywhere", int64(n*n*n), func(i int64, t *T) {
			d := Radix(i, []int{n, n, n}, nil)
			p := make([]geo.Point, n)
			for j := range p {
				p[j] = geo.Point{X: float64(j%5) - 2, Y: float64(j%3) - 1}
			}
			p[d[0]] = geo.Point{X: -50, Y: 0}
			p[d[1]].X = 60
			p[d[1]].Y = 70
			p[d[2]].Y = -80
			t.Desc(func() string { return fmt.Sprint(p) })
			check(t, p, d[0])
		})
		// any number of points and parts, the extremes at any place
		mp := Pick(c, 90, 270, 800)
		c.Enum("extremes anywhere in a geometry of any size", int64(mp*(mp+1)/2*4), func(i int64, t *T) {
			v := int(i % 4)
			k := int(i / 4)
			n, at := triangular(k)
			p := make([]geo.Point, n+1)
			for j := range p {
				p[j] = geo.Point{X: 10 + float64(j%7), Y: -20 - float64(j%4)}
			}
			switch v {
			case 0:
				p[at].X = 1e6
			case 1:
				p[at].X = -1e6
			case 2:
				p[at].Y = 1e6
			case 3:
				p[at].Y = -1e6
			}
			t.Desc(func() string { return fmt.Sprintf("%d points, extreme %d at %d", n+1, v, at) })
			check(t, p, at)
			var ml geo.MultiLineString
			var mlz geo.MultiLineStringZ
			var mg geo.MultiPolygon
			var mgz geo.MultiPolygonZ
			var co geo.Collection
			var bs []*geo.Box
			for _, q := range p {
				r := []geo.Point{q, {X: q.X / 2, Y: q.Y / 2}, {X: 0, Y: q.Y}, q}
				ml, mg = append(ml, r), append(mg, geo.Polygon{r})
				z := zOf(r)
				mlz, mgz = append(mlz, z), append(mgz, geo.PolygonZ{z})
				co = append(co, []geo.Geometry{q, geo.LineString(r), geo.PolygonZ{z}, geo.MultiPoint(r)}[len(co)%4])
				bs = append(bs, geo.NewBox(q.X, q.Y, q.X+1, q.Y))
			}
			w := refBox(p)
			// a part also has points half-way to the origin and on the vertical axis
			for _, q := range p {
				w = rbox{math.Min(w.x0, math.Min(q.X/2, 0)), math.Min(w.y0, q.Y/2), math.Max(w.x1, math.Max(q.X/2, 0)), math.Max(w.y1, q.Y/2)}
			}
			for _, g := range []geo.Geometry{ml, mlz, mg, mgz} {
				t.ops++
				if b := geo.BoundingBox(g); b == nil || (rbox{b.MinX, b.MinY, b.MaxX, b.MaxY}) != w {
					t.Failf("bbox", "BoundingBox(%v) = %v, want %v", g, b, w)
				}
			}
			w = refBox(nil)
			for j, q := range p {
				o := rbox{q.X, q.Y, q.X, q.Y}
				if j%4 > 0 {
					o = refBox([]geo.Point{q, {X: q.X / 2, Y: q.Y / 2}, {X: 0, Y: q.Y}})
				}
				if j == 0 {
					w = o
				}
				w = rbox{math.Min(w.x0, o.x0), math.Min(w.y0, o.y0), math.Max(w.x1, o.x1), math.Max(w.y1, o.y1)}
			}
			if b := geo.BoundingBox(co); b == nil || (rbox{b.MinX, b.MinY, b.MaxX, b.MaxY}) != w {
				t.Failf("bbox", "BoundingBox(%v) = %v, want %v", co, b, w)
			}
			w = refBox(p)
			x1 := math.Inf(-1)
			for _, q := range p {
				x1 = math.Max(x1, q.X+1)
			}
			w.x1 = x1
			if b := geo.BoxUnion(bs...); b == nil || (rbox{b.MinX, b.MinY, b.MaxX, b.MaxY}) != w {
				t.Failf("union", "BoxUnion of %d boxes = %v, want %v", len(bs), b, w)
			}
			t.ops += 2
			t.Trace()
		})
		// collections in collections: every ordered tree, its leaves geometries of all types, each leaf the
		// outermost in some direction
		trees := orderedTrees(Pick(c, 7, 8, 9))
		one, two := geomsOf([]geo.Point{{X: 0, Y: 0}}, 1), geomsOf([]geo.Point{{X: -1, Y: 2}, {X: 1, Y: -3}}, 2)
		names := sortedKeys(one)
		c.Enum("collections in collections", int64(len(trees)*len(names)*4), func(i int64, t *T) {
			tr, off, dir := trees[i%int64(len(trees))], int(i/int64(len(trees)))%len(names), int(i/int64(len(trees)*len(names)))
			var want *rbox
			n := 0
			var build func(x otree) geo.Geometry
			build = func(x otree) geo.Geometry {
				if len(x) > 0 {
					var g geo.Collection
					for _, y := range x {
						g = append(g, build(y))
					}
					return g
				}
				// the leaves in order: outward in direction dir
				k := names[(n*3+off)%len(names)]
				m := float64(n*n*7%11) - 3
				d := [][2]float64{{float64(n*5 + 1), m}, {-float64(n * 5), m}, {m, float64(n*5 + 1)}, {m - 40, -float64(n * 5)}}[dir]
				n++
				var g geo.Geometry
				b := rbox{d[0], d[1], d[0], d[1]}
				if _, single := two[k]; !single {
					g = moveGeom(one[k], d[0], d[1])
				} else {
					g = moveGeom(two[k], d[0], d[1])
					b = rbox{d[0] - 1, d[1] - 3, d[0] + 1, d[1] + 2}
				}
				if want == nil {
					want = &rbox{b.x0, b.y0, b.x1, b.y1}
				} else {
					*want = rbox{math.Min(want.x0, b.x0), math.Min(want.y0, b.y0), math.Max(want.x1, b.x1), math.Max(want.y1, b.y1)}
				}
				return g
			}
			g := geo.Collection{build(tr)}
			t.Desc(func() string { return fmt.Sprintf("%T %v", g, g) })
			if b := geo.BoundingBox(g); (rbox{b.MinX, b.MinY, b.MaxX, b.MaxY}) != *want {
				t.Failf("bbox", "BoundingBox(%v) = %v, want %v", g, *b, *want)
			}
			t.ops++
			t.Trace()
		})
		c.Enum("shapes with holes", int64(len(shapes)*len(xfsFine)), func(i int64, t *T) {
			s, x := shapes[i%int64(len(shapes))], xfsFine[i/int64(len(shapes))]
			t.Desc(func() string { return s.name + " " + x.name })
			g := x.poly(s.p)
			want := refBox(g[0])
			for _, gg := range []geo.Geometry{g, geo.MultiPolygon{g}, geo.Collection{g, g[0].ToLineString()}} {
				if b := geo.BoundingBox(gg); (rbox{b.MinX, b.MinY, b.MaxX, b.MaxY}) != want {
					t.Failf("bbox", "BoundingBox(%v) = %v, want %v", gg, *b, want)
				}
				t.ops++
			}
			t.Trace()
		})
	}})

	register(&Prop{ID: "B02", Rule: measureRule, Assum: []string{"boxes have Min <= Max and sides that are zero or at least 1e-5 long"}, Run: func(c *Ctx) {
		vals := Pick(c, []float64{-3e9, -1, 0, 2.5, 3e9}, []float64{-3e9, -1, 0, 0.0009765625, 2.5, 3e9}, []float64{-3e9, -1, 0, 0.0009765625, 2.5, 2.75, 3e9})
		// all pairs of borders out of a list
		grid := func(vals []float64) (boxes []rbox) {
			for i := range vals {
				for j := i; j < len(vals); j++ {
					for k := range vals {
						for l := k; l < len(vals); l++ {
							boxes = append(boxes, rbox{vals[i], vals[k], vals[j], vals[l]})
						}
					}
				}
			}
			return
		}
		boxes := grid(vals)
		mk := func(b rbox) *geo.Box { return geo.NewBox(b.x0, b.y0, b.x1, b.y1) }
		is := func(t *T, what string, g *geo.Box, w rbox) {
			t.ops++
			if g == nil || g.MinX != w.x0 || g.MinY != w.y0 || g.MaxX != w.x1 || g.MaxY != w.y1 {
				t.Failf("box", "%s = %v, want %v", what, g, w)
			}
		}
		un := func(a, b rbox) rbox {
			return rbox{math.Min(a.x0, b.x0), math.Min(a.y0, b.y0), math.Max(a.x1, b.x1), math.Max(a.y1, b.y1)}
		}
		upToTwo := func(name string, vals []float64, boxes []rbox) {
			n := int64(len(boxes))
			c.Enum("single boxes, "+name, n, func(i int64, t *T) {
				b := boxes[i]
				t.Desc(func() string { return fmt.Sprint(b) })
				is(t, "NewBox", mk(b), b)
				if got, w := mk(b).Size(), (b.x1-b.x0)*(b.y1-b.y0); got != w {
					t.Failf("size", "Size of %v = %v, want %v", b, got, w)
				}
				is(t, "BoxUnion(b)", geo.BoxUnion(mk(b)), b)
				g := geo.BoxToGeo(*mk(b))
				is(t, "BoundingBox(BoxToGeo(b))", geo.BoundingBox(g), b)
				switch g := g.(type) {
				case geo.Point:
					if b.x0 != b.x1 || b.y0 != b.y1 {
						t.Failf("togeo", "BoxToGeo(%v) is a point", b)
					}
				case geo.LineString:
					if (b.x0 == b.x1) == (b.y0 == b.y1) || len(g) != 2 {
						t.Failf("togeo", "BoxToGeo(%v) = %v", b, g)
					}
				case geo.Polygon:
					if b.x0 == b.x1 || b.y0 == b.y1 || len(g) != 1 || len(g[0]) != 5 || g[0][0] != g[0][4] {
						t.Failf("togeo", "BoxToGeo(%v) = %v", b, g)
					}
					if a := geo.GetArea(g); !near(a, (b.x1-b.x0)*(b.y1-b.y0), 1e-9*a) {
						t.Failf("togeo", "area of BoxToGeo(%v) = %v", b, a)
					}
					for k := 0; k < 4; k++ {
						p, q := g[0][k], g[0][k+1]
						if (p.X == q.X) == (p.Y == q.Y) {
							t.Failf("togeo", "BoxToGeo(%v) = %v", b, g)
						}
					}
				default:
					t.Failf("togeo", "BoxToGeo(%v) = %v", b, g)
				}
				for _, x := range vals {
					for _, y := range vals {
						for _, d := range []float64{-0.25, 0, 0.25} {
							p := geo.Point{X: x + d, Y: y}
							if d != 0 && p.X == x {
								continue
							}
							for s := 0; s < 2; s++ {
								want := b.x0 <= p.X && p.X <= b.x1 && b.y0 <= p.Y && p.Y <= b.y1
								t.ops++
								if got := geo.IsPointInBox(mk(b), p); got != want {
									t.Failf("in", "IsPointInBox(%v, %v) = %v", b, p, got)
								}
								p = geo.Point{X: x, Y: y + d}
							}
						}
					}
				}
				if mk(b).Intersect(nil) || (*geo.Box)(nil).Intersect(mk(b)) {
					t.Failf("nil", "a nil box intersects %v", b)
				}
				p := geo.Point{X: (b.x0 + b.x1) / 2, Y: (b.y0 + b.y1) / 2}
				is(t, "NewRectBox", geo.NewRectBox(p, (b.x1-b.x0)/2, (b.y1-b.y0)/2), rbox{p.X - (b.x1-b.x0)/2, p.Y - (b.y1-b.y0)/2, p.X + (b.x1-b.x0)/2, p.Y + (b.y1-b.y0)/2})
				t.Trace()
			})
			c.Enum("pairs of boxes, "+name, n*n, func(i int64, t *T) {
				a, b := boxes[i%n], boxes[i/n]
				t.Desc(func() string { return fmt.Sprint(a, b) })
				ga, gb := mk(a), mk(b)
				if got := ga.Intersect(gb); got != a.meets(b) {
					t.Failf("intersect", "%v Intersect %v = %v", a, b, got)
				}
				if got, w := ga.Contain(gb), a.x0 <= b.x0 && b.x1 <= a.x1 && a.y0 <= b.y0 && b.y1 <= a.y1; got != w {
					t.Failf("contain", "%v Contain %v = %v", a, b, got)
				}
				is(t, "Union", ga.Union(gb), un(a, b))
				is(t, "BoxUnion", geo.BoxUnion(ga, gb), un(a, b))
				is(t, "first argument", ga, a)
				is(t, "second argument", gb, b)
				t.ops += 2
				t.Trace()
			})
		}
		upToTwo("binary fractions", vals, boxes)
		// borders that are not binary fractions: sums and differences of them are rounded
		dec := Pick(c, []float64{-116.397, 0.1, 0.2, 0.3, 0.7, 1.1, 39.90923}, []float64{-116.397, -0.3, 0.1, 0.2, 0.3, 0.6, 0.7, 1.1, 39.90923}, []float64{-1e7 / 3, -116.397, -0.3, 0.1, 0.2, 0.3, 0.6, 0.7, 1.1, 39.90923, 1e6 / 7})
		upToTwo("decimals", dec, grid(dec))
		vals2 := boxes
		if !c.Thorough() {
			vals2 = nil
			for i, b := range boxes {
				if i%2 == 0 {
					vals2 = append(vals2, b)
				}
			}
		}
		m := int64(len(vals2))
		c.Enum("unions of three boxes", m*m*m, func(i int64, t *T) {
			a, b, d := vals2[i%m], vals2[i/m%m], vals2[i/m/m]
			t.Desc(func() string { return fmt.Sprint(a, b, d) })
			g := []*geo.Box{mk(a), mk(b), mk(d)}
			is(t, "BoxUnion", geo.BoxUnion(g...), un(un(a, b), d))
			is(t, "first argument", g[0], a)
			is(t, "second argument", g[1], b)
			is(t, "third argument", g[2], d)
		})
		// any number of boxes, the extreme of one side (or of two) in any of them
		mb := Pick(c, 80, 140, 300)
		c.Enum("unions of many boxes", int64(mb*(mb+1)/2*4*3), func(i int64, t *T) {
			side, next := int(i%4), int(i/4%3)
			n, at := triangular(int(i / 12))
			bs := make([]rbox, n+1)
			gs := make([]*geo.Box, n+1)
			for j := range bs {
				x, y := float64(j%7)-3, float64(j%4)-1
				bs[j] = rbox{x, y, x + float64(j%3), y + float64(j%2)}
			}
			// the extreme of the next side lies in the next box, in the same or in none
			for s := side; s < side+min(next+1, 2); s++ {
				b := &bs[(at+(s-side)*(2-next))%len(bs)]
				switch s % 4 {
				case 0:
					b.x1 = 1e6
				case 1:
					b.x0 = -1e6
				case 2:
					b.y1 = 1e6
				case 3:
					b.y0 = -1e6
				}
			}
			w := bs[0]
			for j, b := range bs {
				gs[j] = mk(b)
				w = un(w, b)
			}
			t.Desc(func() string { return fmt.Sprintf("%d boxes, extreme %d at %d", n+1, side, at) })
			is(t, fmt.Sprintf("BoxUnion of %d boxes, extreme of side %d in box %d", n+1, side, at), geo.BoxUnion(gs...), w)
			for j, b := range bs {
				is(t, "argument", gs[j], b)
			}
			t.Trace()
		})
	}})

	// ------------------------------------------------------------ areas and centroids
	areaX := append(append([]xf{}, xfsFine...), xfTiny)
	// area tolerance: a millionth of the unit square per unit of area, more for large offsets
	areaTol := func(x xf, a2 int64) float64 { return 1e-6 * x.unit() * x.unit() * (1 + math.Abs(float64(a2))) }
	checkArea := func(t *T, p ipoly, x xf) {
		g := x.poly(p)
		u2 := x.unit() * x.unit()
		want := float64(p.area2()) / 2 * u2
		t.ops += 3
		if got := geo.GetArea(g); !near(got, want, areaTol(x, p.area2())) {
			t.Failf("area", "GetArea(%v) = %v, want %v (%s, %v)", g, got, want, x.name, p)
		}
		if got := g.IsCCW(); got != (p[0].area2() > 0) {
			t.Failf("ccw", "IsCCW of %v = %v (%s)", g, got, x.name)
		}
		h := x.poly(p.shifted(40, -30))
		if got := geo.GetArea(geo.MultiPolygon{g, h}); !near(got, 2*want, 2*areaTol(x, p.area2())) {
			t.Failf("area", "GetArea of a MultiPolygon of %v and the same shifted = %v, want %v", g, got, 2*want)
		}
		if got := geo.MultiPolyArea(geo.MultiPolygon{h, g, h}); !near(got, 3*want, 3*areaTol(x, p.area2())) {
			t.Failf("area", "MultiPolyArea = %v, want %v", got, 3*want)
		}
		t.Trace()
	}
	type gs struct {
		n int
		g int64
	}
	polySpaces := func(c *Ctx, f func(t *T, p ipoly, x xf)) {
		for _, s := range Pick(c, []gs{{3, 5}, {4, 4}, {5, 3}, {6, 3}}, []gs{{3, 7}, {4, 5}, {5, 4}, {6, 3}, {7, 3}}, []gs{{3, 9}, {4, 7}, {5, 5}, {6, 4}, {7, 3}, {8, 3}}) {
			s := s
			pts := gridPts(0, 0, s.g-1, s.g-1, 1)
			c.Enum(fmt.Sprintf("rings of %d vertices on a %dx%d grid", s.n, s.g, s.g), Pow(len(pts), s.n), func(i int64, t *T) {
				r := gridRing(i, pts, s.n)
				if !r.simple() {
					t.Out("not-simple")
					return
				}
				t.Out("simple")
				t.Desc(func() string { return "ring " + r.String() })
				if s.n == 3 {
					for _, x := range areaX {
						f(t, ipoly{r}, x)
					}
				} else {
					f(t, ipoly{r}, areaX[i%int64(len(areaX))])
					f(t, ipoly{r}, areaX[0])
				}
			})
		}
		c.Enum("catalogue of shapes, holes", int64(len(shapes)*len(areaX)*2), func(i int64, t *T) {
			s := shapes[i%int64(len(shapes))]
			i /= int64(len(shapes))
			x := areaX[i%int64(len(areaX))]
			t.Desc(func() string { return s.name + " " + x.name })
			for k := range s.p[0] {
				for hd := 0; hd < 2; hd++ {
					p := append(ipoly{}, s.p...)
					p[0] = p[0].rotated(k)
					for j := range p {
						if j == 0 && i/int64(len(areaX)) == 1 || j > 0 && hd == 1 {
							p[j] = p[j].reversed()
						}
						if j > 0 {
							p[j] = p[j].rotated(k % len(p[j]))
						}
					}
					f(t, p, x)
				}
			}
		})
		hp := gridPts(1, 1, 4, 4, 1)
		c.Enum("square with two triangular holes", Pow(8, 3)*Pow(8, 3), func(i int64, t *T) {
			lo, hi := gridPts(1, 1, 4, 2, 1), gridPts(1, 3, 4, 4, 1)
			a, b := gridRing(i%512, lo, 3), gridRing(i/512, hi, 3)
			// holes without area take nothing away
			if !a.simple() && a.area2() != 0 || !b.simple() && b.area2() != 0 {
				return
			}
			p := ipoly{{{0, 0}, {10, 0}, {10, 10}, {0, 10}}, a, b}
			t.Desc(func() string { return fmt.Sprint("holes ", a, b) })
			f(t, p, areaX[i%int64(len(areaX))])
		})
		for _, n := range []int{3, 4} {
			n := n
			c.Enum(fmt.Sprintf("square with every hole of %d vertices", n), Pow(len(hp), n), func(i int64, t *T) {
				h := gridRing(i, hp, n)
				if !h.simple() {
					return
				}
				p := ipoly{{{0, 0}, {10, 0}, {10, 10}, {0, 10}}, h}
				if i%2 == 1 {
					p[0] = p[0].reversed()
				}
				t.Desc(func() string { return "hole " + h.String() })
				f(t, p, areaX[i%int64(len(areaX))])
			})
		}
		ln := sizes(4, Pick(c, 60, 200, 500), Pick(c, 514, 1026, 2049))
		c.Enum("families of large rings", int64(nFamilies*len(ln)*len(areaX)), func(i int64, t *T) {
			k, n, x := int(i%nFamilies), ln[i/nFamilies%int64(len(ln))], areaX[i/int64(nFamilies*len(ln))]
			r := familyRing(k, n)
			if !r.simple() {
				return
			}
			t.Desc(func() string { return fmt.Sprintf("family %d with %d vertices, %s", k, n, x.name) })
			for _, v := range []ring{r, r.reversed(), r.rotated(len(r) / 3)} {
				f(t, ipoly{v}, x)
			}
		})
	}
	register(&Prop{ID: "A01", Rule: measureRule, Assum: []string{"rings are closed and simple, holes disjoint and inside the shell", "areas are compared with a tolerance of a millionth (relative to the unit square of the grid), unit squares from 1e-24 (1e-12 at lon-lat offsets) to 1e18"}, Run: func(c *Ctx) {
		polySpaces(c, checkArea)
		// MultiPolygons: pairs of shapes in many relative positions, whatever they do to each other's boxes
		ns := len(shapes)
		shift := []ip{{0, 0}, {1, 0}, {0, -1}, {4, 4}, {-8, 0}, {0, 10}, {20, 20}, {-30, 7}}
		rad := []int{ns, ns, len(shift), 2, len(areaX)}
		c.Enum("MultiPolygons of two shapes", Product(rad), func(i int64, t *T) {
			d := Radix(i, rad, nil)
			a, b, sh, x := shapes[d[0]], shapes[d[1]], shift[d[2]], areaX[d[4]]
			q := b.p.shifted(sh.x, sh.y)
			if d[3] == 1 {
				q = append(ipoly{q[0].reversed()}, q[1:]...)
			}
			t.Desc(func() string { return fmt.Sprintf("%s and %s shifted by %v, %s", a.name, b.name, sh, x.name) })
			ga, gb := x.poly(a.p), x.poly(q)
			wa, wb := float64(a.p.area2())/2*x.unit()*x.unit(), float64(q.area2())/2*x.unit()*x.unit()
			tol := areaTol(x, a.p.area2()) + areaTol(x, q.area2())
			for _, v := range []struct {
				g geo.MultiPolygon
				w float64
			}{{geo.MultiPolygon{ga, gb}, wa + wb}, {geo.MultiPolygon{ga, gb, gb}, wa + 2*wb}, {geo.MultiPolygon{ga, gb, ga}, 2*wa + wb}, {geo.MultiPolygon{ga}, wa}} {
				t.ops += 2
				if got := geo.GetArea(v.g); !near(got, v.w, 2*tol) {
					t.Failf("area", "GetArea(%v) = %v, want %v (%s)", v.g, got, v.w, x.name)
				}
				if got := geo.MultiPolyArea(v.g); !near(got, v.w, 2*tol) {
					t.Failf("area", "MultiPolyArea(%v) = %v, want %v (%s)", v.g, got, v.w, x.name)
				}
			}
			t.Trace()
		})
		c.Enum("MultiPolygons of many parts", int64(Pick(c, 80, 300, 900)*len(areaX)), func(i int64, t *T) {
			n, x := int(i)/len(areaX), areaX[int(i)%len(areaX)]
			var mp geo.MultiPolygon
			var a2 int64
			tol := 0.0
			for k := 0; k < n; k++ {
				p := shapes[k%ns].p.shifted(int64(k%10)*14, int64(k/10)*14)
				mp = append(mp, x.poly(p))
				a2 += p.area2()
				tol += areaTol(x, p.area2())
			}
			t.Desc(func() string { return fmt.Sprintf("%d parts, %s", n, x.name) })
			t.ops += 2
			w := float64(a2) / 2 * x.unit() * x.unit()
			if got := geo.GetArea(mp); !near(got, w, tol) {
				t.Failf("area", "GetArea of %d parts = %v, want %v (%s)", n, got, w, x.name)
			}
			if got := geo.MultiPolyArea(mp); !near(got, w, tol) {
				t.Failf("area", "MultiPolyArea of %d parts = %v, want %v (%s)", n, got, w, x.name)
			}
			t.Trace()
		})
		c.Enum("polygons with many holes", int64(Pick(c, 100, 400, 1200)*len(areaX)), func(i int64, t *T) {
			n, x := int(i)/len(areaX), areaX[int(i)%len(areaX)]
			p := manyHoles(n)
			t.Desc(func() string { return fmt.Sprintf("%d holes, %s", n, x.name) })
			checkArea(t, p, x)
		})
		g := gridPts(-2, -2, 2, 2, 1)
		m := int64(len(g))
		c.Enum("Area2 of three points", m*m*m*int64(len(xfsFine)), func(i int64, t *T) {
			a, b, d, x := g[i%m], g[i/m%m], g[i/m/m%m], xfsFine[i/m/m/m]
			t.Desc(func() string { return fmt.Sprint(x.name, a, b, d) })
			t.ops++
			if got, w := geo.Area2(x.p(a), x.p(b), x.p(d)), float64(orient(a, b, d))*x.unit()*x.unit(); got != w && !near(got, w, 1e-9*math.Abs(w)) {
				t.Failf("area2", "Area2(%v, %v, %v) = %v, want %v", x.p(a), x.p(b), x.p(d), got, w)
			}
			t.Trace()
		})
		c.Enum("geometries without area", 5, func(i int64, t *T) {
			g := []geo.Geometry{geo.Point{X: 1, Y: 2}, geo.MultiPoint{{X: 1, Y: 2}, {X: 3, Y: 2}, {X: 0, Y: 0}}, geo.LineString{{X: 1, Y: 2}, {X: 4, Y: 2}, {X: 0, Y: 0}}, geo.MultiLineString{{{X: 1, Y: 2}, {X: 4, Y: 2}, {X: 0, Y: 0}}}, geo.MultiPolygon{}}[i]
			t.Desc(func() string { return fmt.Sprint(g) })
			if a := geo.GetArea(g); a != 0 {
				t.Failf("zero", "GetArea(%v) = %v", g, a)
			}
		})
		mixedArea(c)
	}})

	// exact centroid (times 3*area2) relative to the first vertex of the shell
	mom := func(r ring, o ip) (mx, my, a2 int64) {
		for i := range r {
			a, b := r.edge(i)
			cr := (a.x-o.x)*(b.y-o.y) - (b.x-o.x)*(a.y-o.y)
			mx += (a.x + b.x - 2*o.x) * cr
			my += (a.y + b.y - 2*o.y) * cr
			a2 += cr
		}
		if a2 < 0 {
			mx, my, a2 = -mx, -my, -a2
		}
		return
	}
	refCentroid := func(p ipoly, x xf) geo.Point {
		o := p[0][0]
		mx, my, a2 := mom(p[0], o)
		for _, h := range p[1:] {
			hx, hy, ha := mom(h, o)
			mx, my, a2 = mx-hx, my-hy, a2-ha
		}
		q := x.p(o)
		return geo.Point{X: q.X + float64(mx)/float64(3*a2)*x.sx, Y: q.Y + float64(my)/float64(3*a2)*x.sy}
	}
	tolOf := func(x xf, ext int) float64 {
		return 1e-6*x.unit()*float64(ext) + 4e-16*(math.Abs(x.ox)+math.Abs(x.oy))
	}
	checkCentroid := func(t *T, p ipoly, x xf) {
		g := x.poly(p)
		want := refCentroid(p, x)
		tol := tolOf(x, len(p[0]))
		t.ops++
		if got := geo.Centroid(g); !nearPt(got, want, tol) {
			t.Failf("centroid", "Centroid(%v) = %v, want %v (%s, %v)", g, got, want, x.name, p)
		}
		if len(p) == 1 {
			t.ops += 3
			if got := geo.LinearCentroid(g[0]); !nearPt(got, want, tol) {
				t.Failf("centroid", "LinearCentroid(%v) = %v, want %v", g[0], got, want)
			}
			for _, l := range []geo.LineString{geo.LineString(clonePts(g[0])), geo.LineString(clonePts(g[0][:len(g[0])-1]))} {
				if x.unit() < 1e-5 && len(l) < len(g[0]) {
					continue // ends closer than the library's 1e-6 resolution
				}
				if got := geo.Centroid(l); !nearPt(got, want, tol) {
					t.Failf("line", "Centroid of the line %v = %v, want %v", l, got, want)
				}
			}
		}
		t.Trace()
	}
	register(&Prop{ID: "A02", Rule: measureRule, Assum: []string{"rings are closed and simple, holes disjoint and inside the shell, area not zero", "tolerance: a millionth of the grid unit, for units from 1e-12 (1e-6 degrees at lon-lat offsets) to 1e9"}, Run: func(c *Ctx) {
		polySpaces(c, checkCentroid)
		c.Enum("polygons with many holes", int64(Pick(c, 100, 400, 1200)*len(areaX)), func(i int64, t *T) {
			n, x := int(i)/len(areaX), areaX[int(i)%len(areaX)]
			p := manyHoles(n)
			t.Desc(func() string { return fmt.Sprintf("%d holes, %s", n, x.name) })
			checkCentroid(t, p, x)
		})
		c.Enum("many points", int64(Pick(c, 300, 2000, 6000)*len(xfsFine)), func(i int64, t *T) {
			n, x := int(i)/len(xfsFine)+1, xfsFine[int(i)%len(xfsFine)]
			var sx, sy int64
			var mp geo.MultiPoint
			for k := 0; k < n; k++ {
				q := ip{int64(k * 37 % 101), int64(k * k % 53)}
				sx, sy = sx+q.x, sy+q.y
				mp = append(mp, x.p(q))
			}
			t.Desc(func() string { return fmt.Sprintf("%d points, %s", n, x.name) })
			w := geo.Point{X: x.ox + x.sx*float64(sx)/float64(n), Y: x.oy + x.sy*float64(sy)/float64(n)}
			t.ops++
			if got, tol := geo.Centroid(mp), 1e-7*x.unit()+1e-13*(math.Abs(x.ox)+math.Abs(x.oy)); !nearPt(got, w, tol) {
				t.Failf("mean", "Centroid of %d points = %v, want %v (%s)", n, got, w, x.name)
			}
			t.Trace()
		})
		vals := gridPts(-2, -2, 1, 1, 1)
		for n := 1; n <= Pick(c, 4, 5, 6); n++ {
			n := n
			c.Enum(fmt.Sprintf("%d points", n), Pow(len(vals), n), func(i int64, t *T) {
				x := xfsFine[i%int64(len(xfsFine))]
				var sx, sy int64
				var mp geo.MultiPoint
				var d []int
				for _, k := range Digits(i, len(vals), n, d) {
					sx, sy = sx+vals[k].x, sy+vals[k].y
					mp = append(mp, x.p(vals[k]))
				}
				t.Desc(func() string { return fmt.Sprint(mp) })
				w := geo.Point{X: x.ox + x.sx*float64(sx)/float64(n), Y: x.oy + x.sy*float64(sy)/float64(n)}
				tol := 1e-9*x.unit() + 1e-14*(math.Abs(x.ox)+math.Abs(x.oy))
				t.ops++
				if got := geo.Centroid(mp); !nearPt(got, w, tol) {
					t.Failf("mean", "Centroid(%v) = %v, want %v", mp, got, w)
				}
				if n == 1 {
					if got := geo.Centroid(mp[0]); got != mp[0] {
						t.Failf("point", "Centroid(%v) = %v", mp[0], got)
					}
				}
				t.Trace()
			})
		}
		// open lines whose ends come as near as 2e-6: each counts as the ring that joins them
		var gaps []float64
		for e := -5; e <= 6; e++ {
			for _, m := range []float64{1, 2, 5} {
				gaps = append(gaps, m*math.Pow(10, float64(e)))
			}
		}
		gaps = append(gaps, 2e-6, 5e-6)
		ratios := []float64{1, 1.5, 3, 10, 100, 1000}
		orig := []geo.Point{{}, {X: 113, Y: 23}, {X: -179, Y: -89}, {X: 1e7, Y: -4e6}}
		gr := []int{len(gaps), len(ratios), len(orig), 4, 8}
		c.Enum("lines whose ends nearly meet", Product(gr), func(i int64, t *T) {
			d := Radix(i, gr, nil)
			g, o := gaps[d[0]], orig[d[2]]
			u := g * ratios[d[1]]
			if u < 1e-9*math.Abs(o.X) || u > 1e8 {
				t.Out("gap too small for the coordinates")
				return
			}
			l := [][]geo.Point{
				{{X: 0, Y: 0}, {X: u, Y: 0}, {X: 0, Y: g}},
				{{X: 0, Y: 0}, {X: u, Y: 0}, {X: u, Y: u}, {X: 0, Y: g}},
				{{X: 0, Y: 0}, {X: 2 * u, Y: 0}, {X: u, Y: u / 2}, {X: 2 * u, Y: 2 * u}, {X: -g, Y: g}},
				{{X: u, Y: 0}, {X: u, Y: u}, {X: -u, Y: u}, {X: -u, Y: -u}, {X: u, Y: -u}, {X: u, Y: -g}},
			}[d[3]]
			var q geo.LineString
			for k, p := range l {
				if d[4]&1 != 0 {
					p = l[len(l)-1-k]
				}
				if d[4]&2 != 0 {
					p.X, p.Y = p.Y, p.X
				}
				if d[4]&4 != 0 {
					p.X, p.Y = -p.X, -p.Y
				}
				q = append(q, geo.Point{X: o.X + p.X, Y: o.Y + p.Y})
			}
			t.Desc(func() string { return fmt.Sprint(q) })
			// relative to the first point, where differences of nearby coordinates are exact
			var mx, my, a2 float64
			f := q[0]
			for k := 1; k+1 < len(q); k++ {
				ax, ay, bx, by := q[k].X-f.X, q[k].Y-f.Y, q[k+1].X-f.X, q[k+1].Y-f.Y
				cr := ax*by - bx*ay
				mx, my, a2 = mx+(ax+bx)*cr, my+(ay+by)*cr, a2+cr
			}
			w := geo.Point{X: f.X + mx/(3*a2), Y: f.Y + my/(3*a2)}
			tol := 1e-6*u + 1e-15*(math.Abs(o.X)+math.Abs(o.Y))
			ring := append(append(geo.LinearRing{}, q...), q[0])
			t.ops += 4
			if got := geo.Centroid(q); !nearPt(got, w, tol) {
				t.Failf("line", "Centroid of the line %v = %v, want %v", q, got, w)
			}
			if got := geo.Centroid(geo.LineString(ring)); !nearPt(got, w, tol) {
				t.Failf("line", "Centroid of the closed line %v = %v, want %v", ring, got, w)
			}
			if got := geo.Centroid(geo.Polygon{ring}); !nearPt(got, w, tol) {
				t.Failf("centroid", "Centroid of the polygon %v = %v, want %v", ring, got, w)
			}
			if got := geo.LinearCentroid(ring); !nearPt(got, w, tol) {
				t.Failf("centroid", "LinearCentroid(%v) = %v, want %v", ring, got, w)
			}
			t.Trace()
		})
		mixedCentroid(c)
	}})
}

// manyHoles is a rectangle with n holes of different shapes and directions.
func manyHoles(n int) ipoly {
	rows := int64((n+9)/10 + 1)
	p := ipoly{{{-2, -2}, {102, -2}, {102, 10 * rows}, {-2, 10 * rows}}}
	for k := 0; k < n; k++ {
		x, y := int64(k%10)*10, int64(k/10)*10
		h := ring{{x, y}, {x + int64(k%7) + 1, y}, {x + 2, y + int64(k%5) + 1}}
		if k%3 == 1 {
			h = append(h, ip{x, y + 1})
		}
		if k%2 == 1 {
			h = h.reversed()
		}
		if h.simple() {
			p = append(p, h)
		}
	}
	return p
}

// triangular returns the k-th pair (n, at) with 0 <= at <= n.
func triangular(k int) (n, at int) {
	n = int((math.Sqrt(8*float64(k)+1) - 1) / 2)
	for n*(n+1)/2 > k {
		n--
	}
	for (n+1)*(n+2)/2 <= k {
		n++
	}
	return n, k - n*(n+1)/2
}
