package main

// Geometries of two scales at once: coordinates that differ by one unit next to coordinates that
// differ by four million units. All products the exact predicates need still fit into 53 bits.

import (
	"fmt"
	"math"

	geo "github.com/hzw456/go-geo"
)

const mixK = 1 << 22

var (
	mixVals = []int64{0, 1, mixK, mixK + 1, 2 * mixK}
	mixX    = []xf{{"two scales", 1, 1, 0, 0}, {"two scales, fine", 1.0 / mixK, 1.0 / mixK, 0, 0}, {"two scales, offset", 1.0 / mixK, 1.0 / mixK, -1, 0.5}}
)

// mixPts: all points whose coordinates are among the values (all of mixVals if none are given)
func mixPts(vals ...int64) (r []ip) {
	if vals == nil {
		vals = mixVals
	}
	for _, y := range vals {
		for _, x := range vals {
			r = append(r, ip{x, y})
		}
	}
	return
}

func mixSeq(i int64, pts []ip, n int) []ip {
	r := make([]ip, n)
	for k := range r {
		r[k] = pts[i%int64(len(pts))]
		i /= int64(len(pts))
	}
	return r
}

// mixSequences enumerates every sequence of n of the points under each of the transforms.
func mixSequences(c *Ctx, what string, pts []ip, n int, f func(t *T, p []ip, x xf)) {
	c.Enum(fmt.Sprintf("%s: every sequence of %d of %d points of two scales", what, n, len(pts)), Pow(len(pts), n), func(i int64, t *T) {
		p := mixSeq(i, pts, n)
		for _, x := range mixX {
			t.Desc(func() string { return fmt.Sprint(p, " ", x.name) })
			f(t, p, x)
		}
	})
}

// mixRings enumerates the simple rings among them.
func mixRings(c *Ctx, f func(t *T, r ring, x xf)) {
	g := func(t *T, p []ip, x xf) {
		if r := ring(p); r.simple() {
			t.Out("simple")
			f(t, r, x)
		}
	}
	mixSequences(c, "rings", mixPts(), 3, g)
	mixSequences(c, "rings", Pick(c, mixPts(0, 1, mixK, 2*mixK), mixPts()), 4, g)
	if c.Thorough() {
		mixSequences(c, "rings", mixPts(0, 1, mixK, 2*mixK), 5, g)
	}
}

// mixFar: the point lies on the polygon's boundary or well away from it
func mixFar(p ipoly, q ip, u float64) bool {
	if p.where(q) == 0 {
		return true
	}
	for _, r := range p {
		for i := range r {
			a, b := r.edge(i)
			z, _ := refClosest(geo.Point{X: float64(q.x), Y: float64(q.y)}, geo.Point{X: float64(a.x), Y: float64(a.y)}, geo.Point{X: float64(b.x), Y: float64(b.y)})
			if math.Hypot(z.X-float64(q.x), z.Y-float64(q.y))*u < 2e-5 {
				return false
			}
		}
	}
	return true
}

func mixedP01(c *Ctx) {
	qs := mixPts(-1, 0, 1, mixK/2, mixK, mixK+1, mixK+mixK/2, 2*mixK, 2*mixK+1)
	mixRings(c, func(t *T, r ring, x xf) {
		p := ipoly{r}
		var far []ip
		for _, q := range qs {
			if mixFar(p, q, x.unit()) {
				far = append(far, q)
			}
		}
		checkPip(t, p, far, x)
	})
}

func mixedP02(c *Ctx) {
	wantSeg := [...]geo.GeometryRealation{geo.RELA_DISJOINT, geo.RELA_TOUCH, geo.RELA_INTERSECT}
	two := func(t *T, p []ip, x xf) {
		w := segRel(p[0], p[1], p[2], p[3])
		got := geo.SegmentRelation(geo.LineSegment{Start: x.p(p[0]), End: x.p(p[1])}, geo.LineSegment{Start: x.p(p[2]), End: x.p(p[3])})
		t.ops += 2
		t.Out([]string{"disjoint", "touch", "cross"}[w])
		if p[0] != p[1] && p[2] != p[3] && got != wantSeg[w] {
			t.Failf("seg", "SegmentRelation(%v %v, %v %v) = %s, want %s", x.p(p[0]), x.p(p[1]), x.p(p[2]), x.p(p[3]), relName(got), relName(wantSeg[w]))
		}
		if lr := geo.LineRelation(x.line(p[:2]), x.line(p[2:])); (lr == geo.RELA_DISJOINT) != (w == relNone) {
			t.Failf("line", "LineRelation of the same = %s, want it disjoint: %v", relName(lr), w == relNone)
		}
		t.Trace()
	}
	mixSequences(c, "two segments", mixPts(), 4, two)
	thinSequences(c, "two segments", 4, two)
	pointSeg := func(t *T, p []ip, x xf) {
		t.ops += 2
		w := onSeg(p[0], p[1], p[2])
		if got := geo.IsPointOnSegment(x.p(p[0]), x.p(p[1]), x.p(p[2])); got != w {
			t.Failf("on-seg", "IsPointOnSegment(%v, %v, %v) = %v", x.p(p[0]), x.p(p[1]), x.p(p[2]), got)
		}
		if got := geo.IsPointOnLine(x.p(p[2]), x.line(p[:2])); got != w {
			t.Failf("on-line", "IsPointOnLine(%v, %v) = %v", x.p(p[2]), x.line(p[:2]), got)
		}
		t.Trace()
	}
	mixSequences(c, "point and segment", mixPts(-1, 0, 1, mixK/2, mixK, mixK+1, 2*mixK), 3, pointSeg)
	thinSequences(c, "point and segment", 3, pointSeg)
	mixSequences(c, "lines of 3 and 2 points", mixPts(0, 1, mixK), 5, func(t *T, p []ip, x xf) {
		meet := segRel(p[0], p[1], p[3], p[4]) != relNone || segRel(p[1], p[2], p[3], p[4]) != relNone
		t.ops += 2
		for _, got := range []geo.GeometryRealation{geo.LineRelation(x.line(p[:3]), x.line(p[3:])), geo.LineRelation(x.line(p[3:]), x.line(p[:3]))} {
			if (got == geo.RELA_DISJOINT) == meet {
				t.Failf("line", "LineRelation(%v, %v) = %s", x.line(p[:3]), x.line(p[3:]), relName(got))
			}
		}
		t.Trace()
	})
}

func mixPolyPoly(t *T, a, b ipoly, x xf) {
	for k, p := range []ipoly{a, b} {
		for _, v := range []ipoly{b, a}[k][0] {
			if !mixFar(p, v, x.unit()) {
				t.Out("too close")
				return
			}
		}
	}
	checkPolyPoly(t, a, b, x)
}

func mixedP03(c *Ctx, seg func(t *T, p ipoly, gp geo.Polygon, a, b ip, x xf) geo.GeometryRealation) {
	sub := mixPts(0, 1, mixK, 2*mixK)
	mixSequences(c, "segment and triangle", Pick(c, sub, mixPts()), 3, func(t *T, p []ip, x xf) {
		r := ring(p)
		if !r.simple() {
			return
		}
		gp := x.poly(ipoly{r})
		for _, a := range mixPts() {
			for _, b := range mixPts() {
				t.Desc(func() string { return fmt.Sprint(p, a, b, x.name) })
				if mixFar(ipoly{r}, a, x.unit()) && mixFar(ipoly{r}, b, x.unit()) {
					seg(t, ipoly{r}, gp, a, b, x)
				}
			}
		}
		t.Trace()
	})
	mixSequences(c, "triangle and triangle", mixPts(0, 1, mixK), Pick(c, 6, 6), func(t *T, p []ip, x xf) {
		a, b := ring(p[:3]), ring(p[3:])
		if a.simple() && b.simple() {
			mixPolyPoly(t, ipoly{a}, ipoly{b}, x)
			mixPolyPoly(t, ipoly{a}, ipoly{b.shifted(mixK, 1)}, x)
			mixPolyPoly(t, ipoly{a.shifted(1, 0)}, ipoly{b}, x)
			t.Trace()
		}
	})
	// small triangles inside, outside and across large ones
	large := []ring{{{0, 0}, {2 * mixK, 0}, {0, 2 * mixK}}, {{0, 0}, {2 * mixK, 1}, {2 * mixK, mixK}, {mixK, mixK}}, {{0, 0}, {2 * mixK, 0}, {2 * mixK, 2 * mixK}, {0, 2 * mixK}}}
	at := mixPts(-2, -1, 0, 1, mixK-1, mixK, mixK+1, 2*mixK-2, 2*mixK)
	small := gridPts(0, 0, 2, 2, 1)
	rad := []int{len(large), len(at), 9, 9, 9}
	c.Enum("small triangles and large polygons", Product(rad), func(i int64, t *T) {
		d := Radix(i, rad, nil)
		r := ring{small[d[2]], small[d[3]], small[d[4]]}.shifted(at[d[1]].x, at[d[1]].y)
		if !r.simple() {
			return
		}
		for _, x := range mixX {
			t.Desc(func() string { return fmt.Sprint(large[d[0]], r, x.name) })
			mixPolyPoly(t, ipoly{large[d[0]]}, ipoly{r}, x)
			mixPolyPoly(t, ipoly{r}, ipoly{large[d[0]]}, x)
		}
		t.Trace()
	})
}

func mixedP04(c *Ctx) {
	self := func(t *T, p []ip, x xf) {
		g, w := x.poly(ipoly{p}), ring(p).crosses()
		t.ops++
		t.Out(fmt.Sprint("crosses-", w))
		if got := g.SelfIntersect(); got != w {
			t.Failf("self", "SelfIntersect of %v = %v, edges cross: %v", g, got, w)
		}
		t.Trace()
	}
	mixSequences(c, "rings", mixPts(), 4, self)
	mixSequences(c, "rings", Pick(c, mixPts(0, 1, mixK), mixPts(0, 1, mixK, 2*mixK)), 5, self)
	thinSequences(c, "rings", 4, self)
	thinSequences(c, "rings", 5, self)
}

func mixedArea(c *Ctx) {
	mixRings(c, func(t *T, r ring, x xf) {
		g := x.poly(ipoly{r})
		want := math.Abs(float64(r.area2())) / 2 * x.unit() * x.unit()
		t.ops += 3
		// the products are exact: only their sum may be rounded
		tol := 1e-6*want + 1e-15*float64(mixK)*float64(mixK)*x.unit()*x.unit()
		if got := geo.GetArea(g); !near(got, want, tol) {
			t.Failf("area", "GetArea(%v) = %v, want %v (%s)", g, got, want, x.name)
		}
		if got := geo.MultiPolyArea(geo.MultiPolygon{g, g}); !near(got, 2*want, 2*tol) {
			t.Failf("area", "MultiPolyArea of twice %v = %v, want %v (%s)", g, got, 2*want, x.name)
		}
		if got := g.IsCCW(); got != (r.area2() > 0) {
			t.Failf("ccw", "IsCCW of %v = %v (%s)", g, got, x.name)
		}
		t.Trace()
	})
	// a polygon and a hole of different scale, polygons of different scale side by side
	hole := []ring{{{1, 1}, {2, 1}, {1, 2}}, {{mixK, mixK}, {mixK, mixK + 2}, {mixK + 2, mixK}}, {{3, 5}, {9, 5}, {9, 7}, {3, 9}}, {{1, 1}, {mixK, 1}, {mixK, 2}}}
	c.Enum("small holes and parts", int64(len(hole)*len(hole)*len(mixX)), func(i int64, t *T) {
		d := Radix(i, []int{len(hole), len(hole), len(mixX)}, nil)
		x := mixX[d[2]]
		p := ipoly{{{0, 0}, {2 * mixK, 0}, {2 * mixK, 2 * mixK}, {0, 2 * mixK}}, hole[d[0]]}
		q := ipoly{hole[d[1]].reversed()}
		u2 := x.unit() * x.unit()
		t.Desc(func() string { return fmt.Sprint(p, q, x.name) })
		t.ops += 3
		for _, v := range []struct {
			g geo.Geometry
			w float64
		}{{x.poly(p), float64(p.area2()) / 2 * u2}, {geo.MultiPolygon{x.poly(q), x.poly(p)}, float64(p.area2()+q.area2()) / 2 * u2}, {geo.MultiPolygon{x.poly(q), x.poly(q)}, float64(q.area2()) * u2}} {
			tol := 0.02 * u2 // the exact value is a multiple of a half: it fits 53 bits
			if got := geo.GetArea(v.g); !near(got, v.w, tol) {
				t.Failf("area", "GetArea(%v) = %v, want %v (%s)", v.g, got, v.w, x.name)
			}
		}
		t.Trace()
	})
	mixSequences(c, "Area2", mixPts(), 3, func(t *T, p []ip, x xf) {
		t.ops++
		w := float64(orient(p[0], p[1], p[2])) * x.unit() * x.unit()
		if got := geo.Area2(x.p(p[0]), x.p(p[1]), x.p(p[2])); got != w {
			t.Failf("area2", "Area2(%v, %v, %v) = %v, want %v", x.p(p[0]), x.p(p[1]), x.p(p[2]), got, w)
		}
	})
}

func mixedCentroid(c *Ctx) {
	ref := func(r ring, x xf) geo.Point { // in floats: the exact moments do not fit 64 bits
		var mx, my float64
		for i := range r {
			a, b := r.edge(i)
			cr := float64((a.x-r[0].x)*(b.y-r[0].y) - (b.x-r[0].x)*(a.y-r[0].y))
			mx += float64(a.x+b.x-2*r[0].x) * cr
			my += float64(a.y+b.y-2*r[0].y) * cr
		}
		q := x.p(r[0])
		a2 := float64(r.area2())
		return geo.Point{X: q.X + mx/(3*a2)*x.sx, Y: q.Y + my/(3*a2)*x.sy}
	}
	mixRings(c, func(t *T, r ring, x xf) {
		if max(r.area2(), -r.area2()) < mixK {
			// a sliver: its moments cancel
			return
		}
		g, w := x.poly(ipoly{r}), ref(r, x)
		tol := 1e-6 * float64(mixK) * x.unit()
		t.ops += 2
		if got := geo.Centroid(g); !nearPt(got, w, tol) {
			t.Failf("centroid", "Centroid(%v) = %v, want %v (%s)", g, got, w, x.name)
		}
		if got := geo.LinearCentroid(g[0]); !nearPt(got, w, tol) {
			t.Failf("centroid", "LinearCentroid(%v) = %v, want %v (%s)", g[0], got, w, x.name)
		}
		t.Trace()
	})
}

func mixedDist(c *Ctx) {
	mixSequences(c, "point and segment", mixPts(), 3, func(t *T, p []ip, x xf) {
		P, A, B := x.p(p[0]), x.p(p[1]), x.p(p[2])
		q, u := refClosest(P, A, B)
		w, tol := refDist(P, q, false), 1e-14*mixK*x.unit()
		d, got := geo.PointToSegmentDistance(P, A, B, 0)
		t.ops += 3
		if !near(d, w, tol) || !nearPt(got, q, tol) {
			t.Failf("seg", "PointToSegmentDistance(%v, %v, %v) = %v at %v, want %v at %v", P, A, B, d, got, w, q)
		}
		f := geo.Point{X: A.X + u*(B.X-A.X), Y: A.Y + u*(B.Y-A.Y)}
		if ld, lp, lu := geo.PointToLineDistance(P, A, B, 0); !near(ld, refDist(P, f, false), tol) || !nearPt(lp, f, tol) || !near(lu, u, 1e-9*(1+math.Abs(u))) {
			t.Failf("line", "PointToLineDistance(%v, %v, %v) = %v, %v, %v; want %v, %v", P, A, B, ld, lp, lu, f, u)
		}
		if d := geo.PointDistance(P, A, 0); !near(d, refDist(P, A, false), 1e-15*d) {
			t.Failf("dist", "PointDistance(%v, %v) = %v", P, A, d)
		}
		t.Trace()
	})
	mixSequences(c, "point and line", mixPts(0, 1, mixK, 2*mixK), 4, func(t *T, p []ip, x xf) {
		l := x.line(p[1:])
		z1, _ := refClosest(x.p(p[0]), l[0], l[1])
		z2, _ := refClosest(x.p(p[0]), l[1], l[2])
		w, tol := math.Min(refDist(x.p(p[0]), z1, false), refDist(x.p(p[0]), z2, false)), 1e-14*mixK*x.unit()
		t.ops++
		q, k, d := geo.PointHitLineString(x.p(p[0]), l, 0)
		if k < 0 || k > 1 || !near(d, w, tol) || !nearPt(q, []geo.Point{z1, z2}[k], tol) {
			t.Failf("hit", "PointHitLineString(%v, %v) = %v, %d, %v; the least distance is %v", x.p(p[0]), l, q, k, d, w)
		}
		t.Trace()
	})
}

func mixedHausdorff(c *Ctx, ref func(a, b geo.LineString, wgs bool) float64) {
	mixSequences(c, "two lines", mixPts(), 4, func(t *T, p []ip, x xf) {
		a, b := x.line(p[:2]), x.line(p[2:])
		if p[0] == p[1] || p[2] == p[3] {
			return
		}
		t.ops++
		w := ref(a, b, false)
		if d := geo.HausdorffDistance(a, b, 0); !near(d, w, 1e-15*w) {
			t.Failf("hausdorff", "HausdorffDistance(%v, %v) = %v, want %v", a, b, d, w)
		}
		t.Trace()
	})
}

func mixedSimplify(c *Ctx) {
	f := func(t *T, p []ip, x xf) {
		for _, thr := range []float64{0, 0.5, 1, 1.5, mixK / 2, mixK, 1.5 * mixK} {
			checkDP(t, x.line(p), thr*x.unit(), 1e-12*mixK*x.unit(), geo.SRID_WGS84_PSEUDO_MERCATOR)
		}
	}
	for _, n := range []int{3, 4} {
		mixSequences(c, "lines", Pick(c, mixPts(0, 1, mixK, 2*mixK), mixPts()), n, f)
	}
	mixSequences(c, "lines", mixPts(0, 1, mixK), 5, f)
}

func mixedAngles(c *Ctx, turn func(a, b float64) float64) {
	angles := func(t *T, p []ip, x xf) {
		if p[0] == p[1] || p[2] == p[1] {
			return
		}
		P, O, Q := x.p(p[0]), x.p(p[1]), x.p(p[2])
		a, err := geo.CacAngle(P, O, Q)
		cv, cerr := geo.CacConvex(P, O, Q)
		t.ops += 3
		ux, uy, vx, vy := float64(p[0].x-p[1].x), float64(p[0].y-p[1].y), float64(p[2].x-p[1].x), float64(p[2].y-p[1].y)
		if w := math.Atan2(ux*vy-uy*vx, ux*vx+uy*vy); err != nil || turn(a, w) > 1e-9 || a < 0 || a > 2*math.Pi {
			t.Failf("angle", "CacAngle(%v, %v, %v) = %v, %v, want %v", P, O, Q, a, err, w)
		}
		o := orient(p[0], p[1], p[2])
		if want := map[int]int8{1: 0, -1: 1, 0: 2}[sgn(o)]; cerr != nil || cv != want {
			t.Failf("convex", "CacConvex(%v, %v, %v) = %d, %v, want %d", P, O, Q, cv, cerr, want)
		}
		if qa, err := geo.CacQuadrantAngle(O, Q); err != nil || turn(qa, math.Atan2(vy, vx)) > 1e-9 {
			t.Failf("quadrant", "CacQuadrantAngle(%v, %v) = %v, %v", O, Q, qa, err)
		}
		t.Trace()
	}
	mixSequences(c, "angles", mixPts(), 3, angles)
	thinSequences(c, "angles", 3, angles)
}

// thinPts: points whose directions from each other differ by less than the precision of an angle
// or a quotient; all differences of coordinates are at most n, so that products stay exact.
func thinPts() (r []ip) {
	const n = 1<<26 - 3
	return []ip{{0, 0}, {5, 3}, {n, n - 1}, {n - 1, n - 2}, {n/2 + 1, n / 2}, {n - 2, n - 2}, {n, n}, {n / 3, n/3 - 1}, {0, 1}}
}

// thinSequences enumerates every sequence of n of them, in four quadrants and under two transforms.
func thinSequences(c *Ctx, what string, n int, f func(t *T, p []ip, x xf)) {
	pts := thinPts()
	xs := []xf{{"thin", 1, 1, 0, 0}, {"thin, fine", 1.0 / (1 << 26), 1.0 / (1 << 26), 0, 0}}
	c.Enum(fmt.Sprintf("%s: every sequence of %d of %d nearly collinear points", what, n, len(pts)), Pow(len(pts), n)*8, func(i int64, t *T) {
		p := mixSeq(i/8, pts, n)
		for k := range p {
			if i&1 != 0 {
				p[k].x = -p[k].x
			}
			if i&2 != 0 {
				p[k].y = -p[k].y
			}
		}
		x := xs[i>>2&1]
		t.Desc(func() string { return fmt.Sprint(p, " ", x.name) })
		f(t, p, x)
	})
}
