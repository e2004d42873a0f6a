package main

// Convex hull, minimum bounding rectangle, rotation (H01, H02, H03).

import (
	"fmt"
	"math"
	"sort"

	geo "github.com/hzw456/go-geo"
)

// refHull: monotone chain on integers; strictly convex vertices, counter-clockwise.
func refHull(in []ip) ring {
	p := append([]ip{}, in...)
	sort.Slice(p, func(i, j int) bool { return p[i].x < p[j].x || p[i].x == p[j].x && p[i].y < p[j].y })
	u := p[:0]
	for i, v := range p {
		if i == 0 || v != u[len(u)-1] {
			u = append(u, v)
		}
	}
	p = u
	if len(p) < 3 {
		return nil
	}
	half := func(q []ip) []ip {
		var s []ip
		for _, v := range q {
			for len(s) > 1 && orient(s[len(s)-2], s[len(s)-1], v) <= 0 {
				s = s[:len(s)-1]
			}
			s = append(s, v)
		}
		return s[:len(s)-1]
	}
	lo := half(p)
	rev := make([]ip, len(p))
	for i := range p {
		rev[len(p)-1-i] = p[i]
	}
	h := ring(append(lo, half(rev)...))
	if len(h) < 3 {
		return nil
	}
	return h
}

// checkHull: got is a closed counter-clockwise convex ring over the given points that has every
// extreme point and the area of the hull.
func checkHull(t *T, pts []ip, x xf) {
	in := make([]geo.Point, 0, len(pts)+2)
	back := map[geo.Point]ip{}
	for _, p := range pts {
		in = append(in, x.p(p))
		back[x.p(p)] = p
	}
	before := Snapshot(in)
	got := geo.ConvexHull(in...)
	t.ops++
	if Snapshot(in) != before {
		t.Failf("argument", "ConvexHull changed the caller's points %v to %v", pts, in)
	}
	want := refHull(pts)
	if want == nil {
		if len(pts) < 3 && got != nil {
			t.Failf("few", "ConvexHull of %d points = %v", len(pts), got)
		}
		t.Out("collinear")
		return
	}
	bad := func(why string) {
		t.Failf("hull", "ConvexHull(%v) = %v: %s; the hull is %v (%s)", in, got, why, want, x.name)
	}
	if len(got) != 1 || len(got[0]) < 3 {
		bad("not one ring")
	}
	r := got[0]
	if r[0] != r[len(r)-1] {
		if !nearPt(r[0], r[len(r)-1], 1e-6) { // the library's resolution for equal points
			bad("not closed")
		}
		r = append(clonePts(r), r[0])
	}
	var ir ring
	for _, q := range r[:len(r)-1] {
		v, ok := back[q]
		if !ok {
			bad(fmt.Sprintf("vertex %v is not one of the points", q))
		}
		if len(ir) == 0 || ir[len(ir)-1] != v {
			ir = append(ir, v)
		}
	}
	for len(ir) > 1 && ir[0] == ir[len(ir)-1] {
		ir = ir[1:]
	}
	for i := range ir {
		a, b := ir.edge(i)
		_, d := ir.edge((i + 1) % len(ir))
		if orient(a, b, d) < 0 {
			bad(fmt.Sprintf("turns clockwise at %v", b))
		}
		if orient(a, b, d) == 0 && !onSeg(a, d, b) {
			bad(fmt.Sprintf("turns back at %v", b))
		}
	}
	if ir.area2() != want.area2() {
		bad("wrong area")
	}
	for _, w := range want {
		ok := false
		for _, v := range ir {
			ok = ok || v == w
		}
		if !ok {
			bad(fmt.Sprintf("extreme point %v is missing", w))
		}
	}
	t.Trace()
	t.Out("hull")
	t.Obs(hashStr(fmt.Sprint(len(ir), ir.area2())))
}

// larger point sets, as functions of size and order
var pointSets = []struct {
	name string
	at   func(i, n int) ip
}{
	{"grid", func(i, n int) ip { s := int(math.Ceil(math.Sqrt(float64(n)))); return ip{int64(i % s), int64(i / s)} }},
	{"parabola", func(i, n int) ip { k := int64(i - n/2); return ip{k, k * k} }},
	{"rectangle border", func(i, n int) ip {
		m := int64(n/4 + 1)
		k := int64(i) % (4 * m)
		switch k / m {
		case 0:
			return ip{k, 0}
		case 1:
			return ip{m, k - m}
		case 2:
			return ip{3*m - k, m}
		}
		return ip{0, 4*m - k}
	}},
	{"lattice scatter", func(i, n int) ip { return ip{int64(i*37) % 101, int64(i*53) % 89} }},
	{"two clusters", func(i, n int) ip { return ip{int64(i%2)*1000 + int64(i*7%5), int64(i * 3 % 4)} }},
	{"star", func(i, n int) ip {
		d := [][2]int64{{1, 0}, {1, 1}, {0, 1}, {-1, 1}, {-1, 0}, {-1, -1}, {0, -1}, {1, -1}}[i%8]
		return ip{d[0] * int64(i/8+1), d[1] * int64(i/8+1)}
	}},
	{"duplicates", func(i, n int) ip { return ip{int64(i % 3), int64(i % 4)} }},
	{"nearly collinear", func(i, n int) ip {
		y := int64(0)
		if i == n/2 {
			y = 1
		}
		return ip{int64(i), y}
	}},
	{"low row", func(i, n int) ip {
		if i < n/2 {
			return ip{int64(i), 0}
		}
		return ip{int64(n - i), int64(i % 7)}
	}},
}

func init() {
	hullX := append(append([]xf{}, xfs...), xf{"small units", 1.0 / (1 << 16), 1.0 / (1 << 16), 0.25, -0.5})
	setSpace := func(c *Ctx, maxN, top, nStride int, f func(t *T, p []ip, x xf)) {
		type ps struct{ s, n, a, x int }
		var all []ps
		for s := range pointSets {
			for _, n := range sizes(3, maxN, top) {
				for _, a := range pickStrides(n, nStride) {
					all = append(all, ps{s, n, a, len(all) % len(hullX)})
				}
			}
		}
		c.Enum("families of point sets in many orders", int64(len(all)), func(i int64, t *T) {
			q := all[i]
			t.Desc(func() string {
				return fmt.Sprintf("%s, %d points, order stride %d, %s", pointSets[q.s].name, q.n, q.a, hullX[q.x].name)
			})
			var p []ip
			for k := 0; k < q.n; k++ {
				p = append(p, pointSets[q.s].at(k*q.a%q.n, q.n))
			}
			f(t, p, hullX[q.x])
		})
	}
	ptSpace := func(c *Ctx, g int64, n int, f func(t *T, p []ip, x xf)) {
		pts := gridPts(0, 0, g-1, g-1, 1)
		c.Enum(fmt.Sprintf("every sequence of %d points on a %dx%d grid", n, g, g), Pow(len(pts), n), func(i int64, t *T) {
			var p []ip
			for _, k := range Digits(i, len(pts), n, nil) {
				p = append(p, pts[k])
			}
			x := hullX[i%int64(len(hullX))]
			t.Desc(func() string { return fmt.Sprint(p, x.name) })
			f(t, p, x)
		})
	}
	type gn struct {
		g int64
		n int
	}
	register(&Prop{ID: "H01", Rule: measureRule + "; the hull is compared with an exact monotone-chain hull", Assum: []string{"coordinates on binary grids at nine scalings (units from 1.5e-5 to 1e9) and offsets, so that orientation is exact"}, Run: func(c *Ctx) {
		for _, s := range Pick(c, []gn{{5, 1}, {5, 2}, {5, 3}, {4, 4}, {3, 5}, {3, 6}}, []gn{{6, 3}, {5, 4}, {4, 5}, {3, 6}}, []gn{{7, 3}, {6, 4}, {4, 5}, {3, 6}, {3, 7}}) {
			ptSpace(c, s.g, s.n, checkHull)
		}
		setSpace(c, Pick(c, 60, 100, 220), Pick(c, 257, 1025, 2049), Pick(c, 12, 20, 40), checkHull)
		for n := 3; n <= Pick(c, 5, 5, 6); n++ {
			thinSequences(c, "hull", n, checkHull)
		}
		mixSequences(c, "hull", mixPts(), 4, checkHull)
		mixSequences(c, "hull", mixPts(0, 1, mixK, 2*mixK), 5, checkHull)
		mixSequences(c, "hull", Pick(c, mixPts(0, 1, mixK), mixPts(0, 1, mixK), mixPts(0, 1, mixK, mixK+1)), 6, checkHull)
	}})

	// ------------------------------------------------------------ minimum bounding rectangle
	// the least area of a rectangle with a side along an edge of the hull
	refMbr := func(h ring) float64 {
		best := math.Inf(1)
		for i := range h {
			a, b := h.edge(i)
			dx, dy := b.x-a.x, b.y-a.y
			var u0, u1, v0, v1 int64 = math.MaxInt64, math.MinInt64, math.MaxInt64, math.MinInt64
			for _, p := range h {
				u, v := p.x*dx+p.y*dy, p.y*dx-p.x*dy
				u0, u1, v0, v1 = min(u0, u), max(u1, u), min(v0, v), max(v1, v)
			}
			best = math.Min(best, float64(u1-u0)*float64(v1-v0)/float64(dx*dx+dy*dy))
		}
		return best
	}
	checkMbr := func(t *T, pts []ip, x xf) {
		h := refHull(pts)
		if h == nil {
			t.Out("collinear")
			return
		}
		in := x.line(pts)
		back := geo.LineString(clonePts(in))
		cl := func(r ring) geo.LinearRing { return x.ring(r) }
		k := len(pts) / 2
		gs := []geo.Geometry{geo.MultiPoint(clonePts(in)), geo.LineString(clonePts(in)), geo.MultiLineString{clonePts(in[:k]), clonePts(in[k:])}, geo.Polygon{cl(h)}, geo.MultiPolygon{{cl(h)}, {cl(ring{h[0], h[1], h[2]})}}}
		u := x.unit()
		want := refMbr(h) * u * u
		diam := 0.0
		for _, p := range h {
			diam = math.Max(diam, math.Hypot(float64(p.x-h[0].x)*u, float64(p.y-h[0].y)*u))
		}
		const e = 5e-4 // RotateCW works to 1e-4
		tol := e + 1e-9*diam + 1e-12*(math.Abs(x.ox)+math.Abs(x.oy))
		for gi, g := range gs {
			got := geo.Mbr(g)
			t.ops++
			bad := func(why string) {
				t.Failf("mbr", "Mbr(%s %v) = %v: %s; least area %v (%s)", g.Type(), g, got, why, want, x.name)
			}
			if len(got) != 1 || len(got[0]) != 5 {
				bad("not a rectangle")
			}
			r := got[0]
			if !nearPt(r[0], r[4], tol) {
				bad("not closed")
			}
			var side [4]geo.Point
			for j := 0; j < 4; j++ {
				side[j] = geo.Point{X: r[j+1].X - r[j].X, Y: r[j+1].Y - r[j].Y}
			}
			a := math.Hypot(side[0].X, side[0].Y)
			b := math.Hypot(side[1].X, side[1].Y)
			if math.Abs(side[0].X+side[2].X)+math.Abs(side[0].Y+side[2].Y) > 4*tol || math.Abs(side[1].X+side[3].X)+math.Abs(side[1].Y+side[3].Y) > 4*tol {
				bad("opposite sides differ")
			}
			if math.Abs(side[0].X*side[1].X+side[0].Y*side[1].Y) > 4*tol*(a+b) {
				bad("no right angle")
			}
			if math.Abs(a*b-want) > 8*tol*(a+b+tol) {
				bad(fmt.Sprintf("area %v is not minimal", a*b))
			}
			// contains every point: distances along both sides
			for _, p := range in {
				for j := 0; j < 2; j++ {
					l := []float64{a, b}[j]
					d := ((p.X-r[0].X)*side[j].X + (p.Y-r[0].Y)*side[j].Y) / l
					if j == 1 {
						d = ((p.X-r[1].X)*side[1].X + (p.Y-r[1].Y)*side[1].Y) / l
					}
					// the side's direction itself is only known to tol/l
					slack := 2*tol + 2*tol*diam/l
					if d < -slack || d > l+slack {
						bad(fmt.Sprintf("point %v lies outside by %v", p, math.Max(-d, d-l)))
					}
				}
			}
			if gi == 1 && Snapshot(g) != Snapshot(back) {
				t.Failf("argument", "Mbr changed its argument to %v", g)
			}
		}
		t.Trace()
		t.Out("mbr")
	}
	mbrX := []xf{{"identity", 1, 1, 0, 0}, {"tens", 16, 16, -40, 24}, {"metres", 16, 16, 500000, 4500000}, {"thousands", 1024, 1024, -2048, 1024}}
	register(&Prop{ID: "H02", Rule: measureRule + "; the least rectangle over all hull-edge directions is computed exactly", Assum: []string{"points not all collinear; extents of at least one unit, because rotation works to a resolution of 1e-4 (areas, angles and containment are compared with that tolerance)"}, Run: func(c *Ctx) {
		for _, s := range Pick(c, []gn{{5, 3}, {4, 4}, {3, 5}}, []gn{{7, 3}, {5, 4}, {4, 5}, {3, 6}}, []gn{{7, 3}, {6, 4}, {5, 5}, {4, 6}, {3, 8}}) {
			ptSpace(c, s.g, s.n, func(t *T, p []ip, x xf) { checkMbr(t, p, mbrX[len(p)%len(mbrX)]); checkMbr(t, p, mbrX[1]) })
		}
		setSpace(c, Pick(c, 24, 80, 200), Pick(c, 66, 258, 301), Pick(c, 6, 12, 30), func(t *T, p []ip, x xf) {
			for _, x := range mbrX {
				checkMbr(t, p, x)
			}
		})
		c.Enum("catalogue shapes", int64(len(shapes)*len(mbrX)), func(i int64, t *T) {
			s, x := shapes[i%int64(len(shapes))], mbrX[i/int64(len(shapes))]
			t.Desc(func() string { return s.name + " " + x.name })
			checkMbr(t, s.p[0], x)
		})
	}})

	// ------------------------------------------------------------ rotation
	register(&Prop{ID: "H03", Rule: measureRule + "; every vertex is compared with the rotation formula", Assum: []string{"coordinates up to 1e7; results are compared to the documented resolution of 1e-4"}, Run: func(c *Ctx) {
		var angles []float64
		for k := -Pick(c, 26, 60, 360); k <= Pick(c, 26, 60, 360); k++ {
			angles = append(angles, float64(k)*math.Pi/12)
		}
		for _, a := range []float64{1e-3, 0.1, 1, 2, -3, 10, -45, 90, 179, 181, -270, 359, 360, 361, -540, 725, 200 * math.Pi, -1000.5 * math.Pi, 1e4, 1e-9, math.SmallestNonzeroFloat64} {
			angles = append(angles, a)
		}
		const res = 1.0001e-4
		rot := func(p, o geo.Point, a float64) geo.Point { // counter-clockwise by a
			dx, dy := p.X-o.X, p.Y-o.Y
			return geo.Point{X: o.X + dx*math.Cos(a) - dy*math.Sin(a), Y: o.Y + dx*math.Sin(a) + dy*math.Cos(a)}
		}
		rotX := []xf{{"identity", 1, 1, 0, 0}, {"fractions", 0.125, 0.125, -0.25, 0.5}, {"lon-lat", 1.0 / 1024, 1.0 / 1024, 113.25, 23.5}, {"metres", 16, 16, 500000, 4500000}}
		one := func(t *T, g geo.Geometry, o geo.Point, a, mag float64) {
			tol := res + 1e-9*mag
			snap := Snapshot(g)
			for dir := 0; dir < 2; dir++ {
				got, ang := geo.RotateCCW(g, o, a), a
				what := "RotateCCW"
				if dir == 1 {
					got, ang = geo.RotateCW(g, o, a), -a
					what = "RotateCW"
				}
				t.ops++
				bad := func(why string, w interface{}) {
					t.Failf("rotate", "%s(%v, %v, %v) = %v: %s %v", what, g, o, a, got, why, w)
				}
				switch g := g.(type) {
				case geo.Point:
					r, ok := got.(geo.Point)
					if !ok || !nearPt(r, rot(g, o, ang), tol) {
						bad("want", rot(g, o, ang))
					}
				case geo.Polygon:
					r, ok := got.(geo.Polygon)
					if !ok || len(r) != len(g) {
						bad("number of rings, want", len(g))
					}
					for i := range g {
						if len(r[i]) != len(g[i]) || r[i][0] != r[i][len(r[i])-1] {
							bad("ring", i)
						}
						for j := range g[i] {
							if !nearPt(r[i][j], rot(g[i][j], o, ang), tol) {
								bad(fmt.Sprintf("vertex %d of ring %d, want", j, i), rot(g[i][j], o, ang))
							}
						}
					}
				}
			}
			if Snapshot(g) != snap {
				t.Failf("argument", "rotation changed its argument to %v", g)
			}
			t.Trace()
		}
		pts := gridPts(-3, -3, 3, 3, 1)
		m := int64(len(pts))
		na := int64(len(angles))
		c.Enum("points", m*m*na*int64(len(rotX)), func(i int64, t *T) {
			p, o, a, x := pts[i%m], pts[i/m%m], angles[i/m/m%na], rotX[i/m/m/na]
			t.Desc(func() string { return fmt.Sprint(p, o, a, x.name) })
			one(t, x.p(p), x.p(o), a, math.Abs(x.ox)+math.Abs(x.oy)+100*x.unit())
		})
		// angles and distances from the centre of every magnitude
		var small []float64
		for k := 1; k <= 12; k++ {
			for _, m := range []float64{1, 3.1, 9} {
				small = append(small, m*math.Pow(10, float64(-k)), -m*math.Pow(10, float64(-k)))
			}
		}
		var far []geo.Point
		for _, r := range []float64{1, 120, 3e3, 1e5, 1e6, 1e7} {
			for _, u := range []geo.Point{{X: 1, Y: 0}, {X: 0, Y: 1}, {X: -1, Y: 0}, {X: 0, Y: -1}, {X: 0.6, Y: 0.8}, {X: -0.8, Y: 0.6}} {
				far = append(far, geo.Point{X: r * u.X, Y: r * u.Y})
			}
		}
		fo := []geo.Point{{X: 0, Y: 0}, {X: 113.25, Y: 23.5}, {X: -4e5, Y: 25}}
		c.Enum("small angles, distant points", int64(len(small)*len(far)*len(fo)*2), func(i int64, t *T) {
			d := Radix(i, []int{len(small), len(far), len(fo), 2}, nil)
			o := fo[d[2]]
			at := func(k int) geo.Point {
				p := far[k%len(far)]
				return geo.Point{X: o.X + p.X, Y: o.Y + p.Y}
			}
			var g geo.Geometry = at(d[1])
			if d[3] == 1 {
				g = geo.Polygon{{at(d[1]), at(d[1] + 1), at(d[1] + 2), at(d[1])}}
			}
			t.Desc(func() string { return fmt.Sprint(g, o, small[d[0]]) })
			one(t, g, o, small[d[0]], 100) // 1e-7 of rounding at 1e7
		})
		// rings of many vertices and many holes
		ln := sizes(3, Pick(c, 20, 40, 80), Pick(c, 130, 257, 1025))
		c.Enum("large polygons", int64(nFamilies+1)*int64(len(ln))*21*int64(len(rotX)), func(i int64, t *T) {
			d := Radix(i, []int{nFamilies + 1, len(ln), 21, len(rotX)}, nil)
			n, x := ln[d[1]], rotX[d[3]]
			p := manyHoles(n)
			if d[0] < nFamilies {
				p = ipoly{familyRing(d[0], n+1), {{1, 1}, {2, 3}, {4, 1}}}
			}
			a := angles[d[2]*(len(angles)-1)/20]
			o := ip{int64(n), -3}
			t.Desc(func() string { return fmt.Sprintf("polygon %d of %d about %v by %v, %s", d[0], n, o, a, x.name) })
			ext := 0.0
			for _, h := range p {
				for _, v := range h {
					ext = math.Max(ext, math.Max(math.Abs(float64(v.x)), math.Abs(float64(v.y))))
				}
			}
			one(t, x.poly(p), x.p(o), a, math.Abs(x.ox)+math.Abs(x.oy)+(100+ext)*x.unit())
		})
		c.Enum("polygons with holes", int64(len(shapes))*na*int64(len(rotX))*9, func(i int64, t *T) {
			s := shapes[i%int64(len(shapes))]
			i /= int64(len(shapes))
			a, x, o := angles[i%na], rotX[i/na%int64(len(rotX))], gridPts(-1, 0, 7, 10, 4)[i/na/int64(len(rotX))]
			t.Desc(func() string { return fmt.Sprint(s.name, o, a, x.name) })
			one(t, x.poly(s.p), x.p(o), a, math.Abs(x.ox)+math.Abs(x.oy)+100*x.unit())
		})
	}})
}
