package main

// Distances, directions, simplification, vectors, buffers (D01-D04, S01, V01, F01).

import (
	"fmt"
	"math"

	geo "github.com/hzw456/go-geo"
)

const earthR = 6371000.0

type v3 struct{ x, y, z float64 }

func (a v3) dot(b v3) float64 { return a.x*b.x + a.y*b.y + a.z*b.z }
func (a v3) cross(b v3) v3 {
	return v3{a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x}
}
func (a v3) scale(k float64) v3 { return v3{a.x * k, a.y * k, a.z * k} }
func (a v3) add(b v3) v3        { return v3{a.x + b.x, a.y + b.y, a.z + b.z} }
func (a v3) norm() float64      { return math.Sqrt(a.dot(a)) }

func rad(d float64) float64 { return d * math.Pi / 180 }

func unitVec(p geo.Point) v3 {
	sl, cl := math.Sincos(rad(p.X))
	sp, cp := math.Sincos(rad(p.Y))
	return v3{cp * cl, cp * sl, sp}
}

// refGreat: angle between the two directions by atan2(|a x b|, a.b), in metres on the sphere.
// For close points the difference vector is computed from the differences of the coordinates.
func refGreat(p, q geo.Point) float64 {
	a, b := unitVec(p), unitVec(q)
	// chord through half-angle differences keeps precision for close points
	dphi, dlam := rad(q.Y-p.Y), rad(q.X-p.X)
	s1, s2 := math.Sin(dphi/2), math.Sin(dlam/2)
	h := s1*s1 + math.Cos(rad(p.Y))*math.Cos(rad(q.Y))*s2*s2
	if h < 0.25 {
		return 2 * earthR * math.Asin(math.Sqrt(h))
	}
	return earthR * math.Atan2(a.cross(b).norm(), a.dot(b))
}

func refDist(p, q geo.Point, wgs bool) float64 {
	if wgs {
		return refGreat(p, q)
	}
	return math.Hypot(p.X-q.X, p.Y-q.Y)
}

// refClosest: closest point of the segment to p in the coordinate plane.
func refClosest(p, a, b geo.Point) (geo.Point, float64) {
	dx, dy := b.X-a.X, b.Y-a.Y
	if dx == 0 && dy == 0 {
		return a, 0
	}
	u := ((p.X-a.X)*dx + (p.Y-a.Y)*dy) / (dx*dx + dy*dy)
	return clampPt(u, a, b), u
}

func clampPt(u float64, a, b geo.Point) geo.Point {
	switch {
	case u <= 0:
		return a
	case u >= 1:
		return b
	}
	return geo.Point{X: a.X + u*(b.X-a.X), Y: a.Y + u*(b.Y-a.Y)}
}

var sridsPlanar = []geo.SRID{geo.SRID_WGS84_PSEUDO_MERCATOR, 0, geo.SRID_WGS84_UTM_ZONE_50N}

func init() {
	const wgs = geo.SRID_WGS84_GPS
	// transforms that make lon/lat sense
	geoX := []xf{{"lon-lat", 1.0 / 1024, 1.0 / 1024, 113.25, 23.5}, {"degrees", 1, 1, 10, 45}, {"south-west", 0.25, 0.25, -71.5, -33.25}, {"tens of degrees", 8, 8, -20, -20}}
	pickX := func(i int64) (xf, geo.SRID, bool) {
		k := i % int64(len(xfsFine)+len(geoX))
		if k < int64(len(xfsFine)) {
			return xfsFine[k], sridsPlanar[int(i/7)%len(sridsPlanar)], false
		}
		return geoX[k-int64(len(xfsFine))], wgs, true
	}
	nX := int64(len(xfsFine) + len(geoX))
	tolX := func(x xf) float64 { return 1e-9*x.unit() + 1e-14*(math.Abs(x.ox)+math.Abs(x.oy)) }
	dTol := func(x xf, w bool) float64 {
		t := 4 * tolX(x)
		if w {
			t = t*112000 + 1e-6
		}
		return t
	}
	register(&Prop{ID: "D01", Rule: measureRule, Assum: []string{"coordinates of at most 1e11 in magnitude", "distances are compared to 1e-9 of the grid unit"}, Run: func(c *Ctx) {
		g := gridPts(-2, -2, 2, 2, 1)
		m := int64(len(g))
		c.Enum("points and segments", m*m*m*nX, func(i int64, t *T) {
			p, a, b := g[i%m], g[i/m%m], g[i/m/m%m]
			x, srid, w := pickX(i / m / m / m)
			t.Desc(func() string { return fmt.Sprint(p, a, b, x.name, srid) })
			P, A, B := x.p(p), x.p(a), x.p(b)
			q, u := refClosest(P, A, B)
			want := refDist(P, q, w)
			d, got := geo.PointToSegmentDistance(P, A, B, srid)
			t.ops += 2
			if !near(d, want, dTol(x, w)) || !nearPt(got, q, tolX(x)) {
				t.Failf("seg", "PointToSegmentDistance(%v, %v, %v, %d) = %v at %v, want %v at %v", P, A, B, srid, d, got, want, q)
			}
			ld, lp, lu := geo.PointToLineDistance(P, A, B, srid)
			f := geo.Point{X: A.X + u*(B.X-A.X), Y: A.Y + u*(B.Y-A.Y)}
			if !near(ld, refDist(P, f, w), dTol(x, w)) || !nearPt(lp, f, tolX(x)) || !near(lu, u, 1e-9) {
				t.Failf("line", "PointToLineDistance(%v, %v, %v, %d) = %v, %v, %v; want %v, %v, %v", P, A, B, srid, ld, lp, lu, refDist(P, f, w), f, u)
			}
			t.Trace()
		})
		c.Enum("pairs of points", m*m*nX, func(i int64, t *T) {
			p, q := g[i%m], g[i/m%m]
			x, srid, w := pickX(i / m / m)
			P, Q := x.p(p), x.p(q)
			t.Desc(func() string { return fmt.Sprint(P, Q, srid) })
			t.ops += 6
			e := math.Hypot(P.X-Q.X, P.Y-Q.Y)
			for k, v := range []float64{geo.EuclideanDis(P, Q), geo.EuclideanDistance(P, Q), P.Distance(Q), geo.LineString{P, Q}.Length()} {
				if !near(v, e, tolX(x)) {
					t.Failf("euclid", "planar distance (%d) of %v and %v = %v, want %v", k, P, Q, v, e)
				}
			}
			if v := geo.PointDistance(P, Q, srid); !near(v, refDist(P, Q, w), dTol(x, w)) {
				t.Failf("dist", "PointDistance(%v, %v, %d) = %v, want %v", P, Q, srid, v, refDist(P, Q, w))
			}
			for _, z := range []float64{0, 1, -3} {
				a, b := geo.PointZ{X: P.X, Y: P.Y, Z: z * x.unit()}, geo.PointZ{X: Q.X, Y: Q.Y, Z: 2 * x.unit()}
				if v, ww := geo.EuclideanDisZ(a, b), math.Hypot(e, a.Z-b.Z); !near(v, ww, tolX(x)) {
					t.Failf("euclid-z", "EuclideanDisZ(%v, %v) = %v, want %v", a, b, v, ww)
				}
			}
			t.Trace()
		})
		hit := func(t *T, P geo.Point, l geo.LineString, x xf, srid geo.SRID, w bool) {
			t.ops++
			best := math.Inf(1)
			for i := 0; i+1 < len(l); i++ {
				q, _ := refClosest(P, l[i], l[i+1])
				best = math.Min(best, refDist(P, q, w))
			}
			q, k, d := geo.PointHitLineString(P, l, srid)
			if k < 0 || k+1 >= len(l) || !near(d, best, dTol(x, w)) || !near(refDist(P, q, w), best, dTol(x, w)) {
				t.Failf("hit", "PointHitLineString(%v, %v, %d) = %v, %d, %v; the least distance is %v", P, l, srid, q, k, d, best)
			}
			if qq, _ := refClosest(P, l[k], l[k+1]); !nearPt(q, qq, tolX(x)) {
				t.Failf("hit", "PointHitLineString(%v, %v, %d) = %v on segment %d, whose nearest point is %v", P, l, srid, q, k, qq)
			}
		}
		for _, n := range Pick(c, []int{2, 3, 4}, []int{3, 4, 5}, []int{4, 5, 6}) {
			n := n
			k := gridPts(0, 0, 2, 2, 1)
			qs := gridPts(-1, -1, 3, 3, 1)
			c.Enum(fmt.Sprintf("points and lines of %d vertices", n), Pow(len(k), n), func(i int64, t *T) {
				var l []ip
				for _, v := range Digits(i, len(k), n, nil) {
					l = append(l, k[v])
				}
				x, srid, w := pickX(i)
				t.Desc(func() string { return fmt.Sprint(l, x.name, srid) })
				L := x.line(l)
				for _, q := range qs {
					hit(t, x.p(q), L, x, srid, w)
				}
				s := 0.0
				for j := 0; j+1 < n; j++ {
					s += math.Hypot(L[j].X-L[j+1].X, L[j].Y-L[j+1].Y)
				}
				if v := L.Length(); !near(v, s, float64(n)*tolX(x)) {
					t.Failf("length", "Length of %v = %v, want %v", L, v, s)
				}
				t.Trace()
			})
		}
		polyD := func(t *T, p ipoly, q ip, x xf, srid geo.SRID, w bool) {
			if x.unit() < 1e-5 {
				return // point in polygon resolves 1e-6
			}
			t.ops++
			G, P := x.poly(p), x.p(q)
			got := geo.PointPolygonDistance(P, G, srid)
			want := 0.0
			if p.where(q) < 0 {
				want = math.Inf(1)
				for _, r := range G {
					for j := 0; j+1 < len(r); j++ {
						z, _ := refClosest(P, r[j], r[j+1])
						want = math.Min(want, refDist(P, z, w))
					}
				}
			}
			if !near(got, want, dTol(x, w)) {
				t.Failf("poly", "PointPolygonDistance(%v, %v, %d) = %v, want %v", P, G, srid, got, want)
			}
		}
		c.Enum("points and catalogue shapes", int64(len(shapes))*nX*2, func(i int64, t *T) {
			s := shapes[i%int64(len(shapes))]
			i /= int64(len(shapes))
			x, srid, w := pickX(i % nX)
			p := s.p
			if i/nX == 1 {
				p = ipoly{}
				for _, r := range s.p {
					p = append(p, r.reversed().rotated(1))
				}
			}
			t.Desc(func() string { return fmt.Sprint(s.name, x.name, srid) })
			for _, q := range bboxGrid(p, 3, 1) {
				polyD(t, p, q, x, srid, w)
			}
			t.Trace()
		})
		for _, n := range []int{3, 4} {
			n := n
			pts := gridPts(0, 0, 2, 2, 1)
			c.Enum(fmt.Sprintf("points and rings of %d vertices", n), Pow(9, n), func(i int64, t *T) {
				r := gridRing(i, pts, n)
				if !r.simple() {
					return
				}
				x, srid, w := pickX(i)
				t.Desc(func() string { return fmt.Sprint(r, x.name, srid) })
				for _, q := range gridPts(-2, -2, 6, 6, 1) {
					polyD(t, ipoly{r}, q, x, srid, w)
				}
				t.Trace()
			})
		}
		ln := sizes(2, Pick(c, 40, 120, 300), Pick(c, 258, 514, 1026))
		c.Enum("points and long lines", int64(nFamilies*len(ln))*nX, func(i int64, t *T) {
			d := Radix(i, []int{nFamilies, len(ln), int(nX)}, nil)
			d[1] = ln[d[1]] - 2
			r := familyRing(d[0], d[1]+2)
			step := 1 + len(r)/200
			x, srid, w := pickX(int64(d[2]))
			if w && x.unit() > 0.3 {
				return // off the globe
			}
			t.Desc(func() string { return fmt.Sprintf("family %d of %d, %s %d", d[0], d[1]+2, x.name, srid) })
			L := x.line(r)
			s := 0.0
			for j := range L {
				if j > 0 {
					s += math.Hypot(L[j].X-L[j-1].X, L[j].Y-L[j-1].Y)
				}
			}
			t.ops++
			if v := L.Length(); !near(v, s, float64(len(L))*tolX(x)+1e-12*s) {
				t.Failf("length", "Length of %v = %v, want %v", L, v, s)
			}
			for j, v := range r {
				if j%step != 0 && j+4 < len(r) {
					continue
				}
				for _, o := range []ip{{0, 0}, {1, 0}, {-1, 2}, {3, -2}, {0, -9}} {
					if j%3 == 0 || o.x == 3 {
						hit(t, x.p(ip{v.x + o.x, v.y + o.y}), L, x, srid, w)
					}
				}
			}
			if p := (ipoly{r}); r.simple() {
				for j, v := range r {
					if j%(2*step) == 0 || j+2 > len(r) {
						polyD(t, p, ip{v.x + 1, v.y - 1}, x, srid, w)
						polyD(t, p, ip{v.x - 3, v.y + 2}, x, srid, w)
					}
				}
			}
			t.Trace()
		})
		hn := sizes(0, Pick(c, 20, 60, 150), Pick(c, 66, 130, 301))
		c.Enum("points and polygons with many holes", int64(len(hn))*nX, func(i int64, t *T) {
			n := hn[i/nX]
			x, srid, w := pickX(i % nX)
			if w && x.unit() > 0.3 {
				return
			}
			p := manyHoles(n)
			t.Desc(func() string { return fmt.Sprintf("%d holes, %s %d", n, x.name, srid) })
			for k, h := range p {
				if n > 70 && k%7 != 0 && k != n-1 && k != n {
					continue
				}
				for j, v := range h {
					polyD(t, p, ip{v.x + 1, v.y + int64(j%2)}, x, srid, w)
					polyD(t, p, ip{v.x - int64(j), v.y - 1}, x, srid, w)
				}
			}
			t.Trace()
		})
		mixedDist(c)
	}})

	register(&Prop{ID: "D02", Rule: measureRule, Assum: []string{"both lines have at least two points and a length greater than zero; coordinates of at most 1e11"}, Run: func(c *Ctx) {
		ref := func(a, b geo.LineString, w bool) float64 {
			h := 0.0
			for k := 0; k < 2; k++ {
				for _, p := range a {
					d := math.Inf(1)
					for _, q := range b {
						d = math.Min(d, refDist(p, q, w))
					}
					h = math.Max(h, d)
				}
				a, b = b, a
			}
			return h
		}
		one := func(t *T, a, b []ip, x xf, srid geo.SRID, w bool) {
			A, B := x.line(a), x.line(b)
			if A.Length() == 0 || B.Length() == 0 {
				t.Out("zero-length")
				return
			}
			t.Desc(func() string { return fmt.Sprint(a, b, x.name, srid) })
			want := ref(A, B, w)
			t.ops += 2
			if d := geo.HausdorffDistance(A, B, srid); !near(d, want, dTol(x, w)) {
				t.Failf("hausdorff", "HausdorffDistance(%v, %v, %d) = %v, want %v", A, B, srid, d, want)
			}
			t.Trace()
			t.Obs(math.Float64bits(want))
		}
		for _, s := range Pick(c, [][3]int{{2, 2, 4}, {2, 3, 4}, {3, 2, 4}, {3, 3, 3}}, [][3]int{{2, 3, 5}, {3, 2, 5}, {3, 3, 4}, {2, 5, 3}, {4, 3, 3}}, [][3]int{{2, 3, 5}, {3, 2, 5}, {3, 3, 5}, {2, 4, 5}, {2, 6, 3}, {4, 4, 3}, {5, 3, 3}}) {
			s := s
			k := gridPts(0, 0, int64(s[2]-1), int64(s[2]-1), 1)
			c.Enum(fmt.Sprintf("lines of %d and %d points on a %dx%d grid", s[0], s[1], s[2], s[2]), Pow(len(k), s[0]+s[1]), func(i int64, t *T) {
				d := Digits(i, len(k), s[0]+s[1], nil)
				var a, b []ip
				for j, v := range d {
					if j < s[0] {
						a = append(a, k[v])
					} else {
						b = append(b, k[v])
					}
				}
				x, srid, w := pickX(i)
				one(t, a, b, x, srid, w)
			})
		}
		n := Pick(c, 30, 60, 150)
		c.Enum("long lines, one deviating vertex anywhere", int64(n*n)*nX, func(i int64, t *T) {
			d := Radix(i, []int{n, n, int(nX)}, nil)
			var a, b []ip
			for k := 0; k < n; k++ {
				a, b = append(a, ip{int64(k), 0}), append(b, ip{int64(k), 1})
			}
			a[d[0]].y = -3
			b = b[:d[1]+1]
			x, srid, w := pickX(int64(d[2]))
			if len(b) > 1 {
				one(t, a, b, x, srid, w)
				one(t, b, a, x, srid, w)
			}
		})
		vl := sizes(63, 66, Pick(c, 513, 1025, 4097))
		vr := []int{len(vl), 7, 3, int(nX)}
		c.Enum("very long lines", Product(vr), func(i int64, t *T) {
			d := Radix(i, vr, nil)
			n := vl[d[0]]
			m := []int{n, 2, n/2 + 1}[d[2]]
			var a, b []ip
			for k := 0; k < n; k++ {
				a = append(a, ip{int64(k), int64(k % 2)})
			}
			for k := 0; k < m; k++ {
				b = append(b, ip{int64(k), 2})
			}
			a[[]int{0, 1, n / 3, n / 2, n - 3, n - 2, n - 1}[d[1]]].y = -3
			x, srid, w := pickX(int64(d[3]))
			one(t, a, b, x, srid, w)
			one(t, b, a, x, srid, w)
		})
		// distances on the sphere that are nearly the same, in degrees or in metres
		offsX := []float64{-1.0005, -1, 0, 1, 1.0005}
		offsY := []float64{-1.0005, -1, 0, 1, 1.0005}
		if c.level() == 0 {
			offsX, offsY = []float64{-1, 0, 1.0005}, []float64{-1.0005, 0, 1}
		}
		lats, scl := []float64{0, 23.5, -45, 60, 80, -88}, []float64{1, 1e-3}
		var nq []geo.Point
		for _, x := range offsX {
			for _, y := range offsY {
				nq = append(nq, geo.Point{X: x, Y: y})
			}
		}
		for _, s := range Pick(c, [][2]int{{2, 2}}, [][2]int{{2, 2}, {2, 3}}, [][2]int{{2, 2}, {2, 3}}) {
			s := s
			pts := nq
			if s[1] == 3 {
				pts = pts[:min(len(pts), Pick(c, 0, 9, 13))]
			}
			k := len(pts)
			c.Enum(fmt.Sprintf("lines of %d and %d points at nearly equal distances on the sphere", s[0], s[1]), Pow(k, s[0]+s[1])*int64(len(lats)*len(scl)), func(i int64, t *T) {
				v := i % Pow(k, s[0]+s[1])
				j := int(i / Pow(k, s[0]+s[1]))
				lat, sc := lats[j/len(scl)], scl[j%len(scl)]
				var a, b geo.LineString
				for q, w := range Digits(v, k, s[0]+s[1], nil) {
					p := geo.Point{X: 113 + pts[w].X*sc, Y: lat + pts[w].Y*sc}
					if q < s[0] {
						a = append(a, p)
					} else {
						b = append(b, p)
					}
				}
				if a.Length() == 0 || b.Length() == 0 {
					t.Out("zero-length")
					return
				}
				t.Desc(func() string { return fmt.Sprint(a, b) })
				want := ref(a, b, true)
				t.ops += 2
				if d, e := geo.HausdorffDistance(a, b, geo.SRID_WGS84_GPS), geo.HausdorffDistance(b, a, geo.SRID_WGS84_GPS); !near(d, want, 1e-6) || !near(e, want, 1e-6) {
					t.Failf("hausdorff", "HausdorffDistance(%v, %v, 4326) = %v, other way %v, want %v", a, b, d, e, want)
				}
				t.Trace()
			})
		}
		mixedHausdorff(c, ref)
	}})

	// ------------------------------------------------------------ the sphere
	var lons, lats []float64
	for v := -180.0; v <= 180; v += 15 {
		lons = append(lons, v)
	}
	for v := -90.0; v <= 90; v += 15 {
		lats = append(lats, v)
	}
	sphere := []geo.Point{}
	for _, x := range append(lons, 113.324, -0.1278, 179.999999) {
		for _, y := range append(lats, 23.106, 51.5074, -89.999999) {
			sphere = append(sphere, geo.Point{X: x, Y: y})
		}
	}
	ns := int64(len(sphere))
	register(&Prop{ID: "D03", Rule: measureRule + "; the reference is the angle between the two direction vectors", Assum: []string{"longitudes in [-180,180], latitudes in [-90,90]", "CoordDistance to 1e-9 relative (1 m within 1e-3 of the antipode), CoordGreateCircle to 1e-9 relative plus 0.5 m (its formula cannot resolve less)"}, Run: func(c *Ctx) {
		one := func(t *T, p, q geo.Point) {
			w := refGreat(p, q)
			a, b := geo.CoordDistance(p, q), geo.CoordDistance(q, p)
			g, h := geo.CoordGreateCircle(p, q), geo.CoordGreateCircle(q, p)
			tol := 2e-8 + 1e-9*w
			if w > math.Pi*earthR*0.999 {
				tol = 1
			}
			t.ops += 4
			if !near(a, w, tol) || !near(a, b, tol) || a < 0 {
				t.Failf("haversine", "CoordDistance(%v, %v) = %v, other way %v, want %v", p, q, a, b, w)
			}
			if !near(g, w, 0.5+1e-9*w) || !near(h, w, 0.5+1e-9*w) || g < 0 {
				t.Failf("greatcircle", "CoordGreateCircle(%v, %v) = %v, other way %v, want %v", p, q, g, h, w)
			}
			if d := geo.PointDistance(p, q, wgs); d != a {
				t.Failf("dispatch", "PointDistance(%v, %v, 4326) = %v, CoordDistance %v", p, q, d, a)
			}
			t.Trace()
		}
		c.Enum("pairs of points of the lon-lat grid", ns*ns, func(i int64, t *T) {
			p, q := sphere[i%ns], sphere[i/ns]
			t.Desc(func() string { return fmt.Sprint(p, q) })
			one(t, p, q)
		})
		dl := []float64{0}
		for e := -10.0; e <= 1; e += 0.5 {
			dl = append(dl, math.Pow(10, e), -math.Pow(10, e))
		}
		nd := int64(len(dl))
		c.Enum("close and nearly antipodal points", ns*nd*nd*2, func(i int64, t *T) {
			p := sphere[i%ns]
			i /= ns
			q := geo.Point{X: p.X + dl[i%nd], Y: p.Y + dl[i/nd%nd]}
			if i/nd/nd == 1 {
				q.X, q.Y = q.X+180, -q.Y
			}
			if q.X > 180 {
				q.X -= 360
			}
			if q.X < -180 {
				q.X += 360
			}
			if q.Y > 90 || q.Y < -90 {
				return
			}
			t.Desc(func() string { return fmt.Sprint(p, q) })
			one(t, p, q)
		})
		// lengths along a meridian and the equator are arcs
		c.Enum("arcs", 361, func(i int64, t *T) {
			t.Desc(func() string { return fmt.Sprint(i) })
			a := math.Abs(float64(i) - 180)
			w := rad(a) * earthR
			tol := 1e-6 + 1e-9*w
			if a > 179 {
				tol = 1
			}
			if d := geo.CoordDistance(geo.Point{X: 0, Y: 0}, geo.Point{X: float64(i) - 180, Y: 0}); !near(d, w, tol) {
				t.Failf("arc", "equator, %d degrees: %v, want %v", i-180, d, w)
			}
			if a <= 90 {
				if d := geo.CoordDistance(geo.Point{X: 33, Y: 0}, geo.Point{X: 33, Y: a}); !near(d, w, tol) {
					t.Failf("arc", "meridian, %v degrees: %v, want %v", a, d, w)
				}
			}
		})
	}})

	register(&Prop{ID: "D04", Rule: measureRule + "; the reference computes with direction vectors and tangents on the sphere", Assum: []string{"longitudes in [-180,180], latitudes in [-90,90] (directions from the poles, towards the same point and towards the antipode are not defined and not compared)", "distances from 0 to half the circumference; destinations compared to 1 m (5 m from a start within one degree of a pole), bearings to 1e-6 degrees or 1 m at the target"}, Run: func(c *Ctx) {
		dirs := func(p geo.Point) (a, n, e v3) {
			a = unitVec(p)
			sl, cl := math.Sincos(rad(p.X))
			sp, cp := math.Sincos(rad(p.Y))
			return a, v3{-sp * cl, -sp * sl, cp}, v3{-sl, cl, 0}
		}
		az := func(t *T, p, q geo.Point) {
			a, n, e := dirs(p)
			b := unitVec(q)
			got := geo.GetAzimuth(p, q, wgs)
			t.ops++
			if !(got >= 0 && got < 360) {
				t.Failf("range", "GetAzimuth(%v, %v) = %v", p, q, got)
			}
			s := a.cross(b).norm()
			if s*earthR < 1e-3 || math.Abs(p.Y) > 89.9999 {
				t.Out("undefined")
				return
			}
			// direction b seen from a
			want := math.Atan2(b.dot(e), b.dot(n)) * 180 / math.Pi
			diff := math.Abs(math.Mod(got-want+720+180, 360) - 180)
			if !(diff < 1e-6+1e-12/s) {
				t.Failf("azimuth", "GetAzimuth(%v, %v) = %v, want %v", p, q, got, math.Mod(want+360, 360))
			}
			t.Trace()
		}
		// the bearing from half angles, which keeps its digits for near points and near poles
		azNear := func(t *T, p, q geo.Point) {
			got := geo.GetAzimuth(p, q, wgs)
			t.ops++
			if !(got >= 0 && got < 360) {
				t.Failf("range", "GetAzimuth(%v, %v) = %v", p, q, got)
			}
			l := math.Mod(q.X-p.X+540+720, 360) - 180 // exact to an ulp of 1260
			sdl := math.Sin(rad(l))
			sh := math.Sin(rad(l) / 2)
			sp, cp := math.Sincos(rad(p.Y))
			cq := math.Cos(rad(q.Y))
			y := sdl * cq
			x := math.Sin(rad(q.Y)-rad(p.Y)) + 2*sp*cq*sh*sh
			s := math.Hypot(x, y)
			if s*earthR < 1e-3 {
				t.Out("same point")
				return
			}
			want := math.Atan2(y, x) * 180 / math.Pi
			diff := math.Abs(math.Mod(got-want+720+180, 360) - 180)
			if !(diff < 1e-6+1e-12/s+1e-13/cp) {
				t.Failf("azimuth", "GetAzimuth(%v, %v) = %v, want %v", p, q, got, math.Mod(want+360, 360))
			}
			t.Trace()
		}
		c.Enum("azimuths between points of the lon-lat grid", ns*ns, func(i int64, t *T) {
			p, q := sphere[i%ns], sphere[i/ns]
			t.Desc(func() string { return fmt.Sprint(p, q) })
			az(t, p, q)
			if v := geo.GetAzimuth(p, q, geo.SRID_WGS84_PSEUDO_MERCATOR); v != 0 {
				t.Failf("planar", "GetAzimuth(%v, %v, 3857) = %v", p, q, v)
			}
		})
		// short distances, at every latitude up to a metre from the poles
		steps := []float64{0}
		for e := -6; e <= 0; e++ {
			for _, m := range []float64{1, 3} {
				steps = append(steps, m*math.Pow(10, float64(e)), -m*math.Pow(10, float64(e)))
			}
		}
		latN := []float64{0, 1e-5, 1, 23.5, 45, 60, 80, 85, 88}
		for e := -5; e <= 0; e++ {
			for _, m := range []float64{1, 2, 5} {
				latN = append(latN, 90-m*math.Pow(10, float64(e)))
			}
		}
		lonN := []float64{0, 113.25, -179.9999999, 180, -90}
		ar := []int{len(steps), len(steps), 2 * len(latN), len(lonN)}
		c.Enum("azimuths between near points", Product(ar), func(i int64, t *T) {
			d := Radix(i, ar, nil)
			p := geo.Point{X: lonN[d[3]], Y: latN[d[2]/2]}
			if d[2]%2 == 1 {
				p.Y = -p.Y
			}
			q := geo.Point{X: p.X + steps[d[0]], Y: p.Y + steps[d[1]]}
			if q.Y > 90 || q.Y < -90 {
				t.Out("beyond the pole")
				return
			}
			if q.X > 180 {
				q.X -= 360
			} else if q.X < -180 {
				q.X += 360
			}
			t.Desc(func() string { return fmt.Sprint(p, q) })
			azNear(t, p, q)
			azNear(t, q, p)
		})
		dists := []float64{0, 0.5, 1, 1000, 54321, 1e6, 5e6, 1e7, 1.5e7, 2e7}
		var brs []float64
		for b := 0.0; b < 360; b += 15 {
			brs = append(brs, b)
		}
		brs = append(brs, 0.001, 33.3, 179.999, 271.7, 359.999, 360, -45)
		nd, nb := int64(len(dists)), int64(len(brs))
		c.Enum("destinations", ns*nd*nb, func(i int64, t *T) {
			p, d, b := sphere[i%ns], dists[i/ns%nd], brs[i/ns/nd]
			t.Desc(func() string { return fmt.Sprint("from ", p, " distance ", d, " bearing ", b) })
			a, n, e := dirs(p)
			sb, cb := math.Sincos(rad(b))
			sd, cd := math.Sincos(d / earthR)
			w := a.scale(cd).add(n.scale(cb * sd)).add(e.scale(sb * sd))
			lat, lon := geo.DestinationPoint(p.Y, p.X, d, b)
			t.ops++
			if !(lon >= -180 && lon <= 180 && lat >= -90 && lat <= 90) {
				t.Failf("range", "DestinationPoint(%v, %v, %v, %v) = %v, %v", p.Y, p.X, d, b, lat, lon)
			}
			q := geo.Point{X: lon, Y: lat}
			tol := 1.0
			if math.Abs(p.Y) > 89 {
				tol = 5 // the formula loses digits next to the poles
			}
			if math.Abs(p.Y) == 90 {
				t.Out("pole") // any longitude is as good as another
				if want := 90 - d/earthR*180/math.Pi; !near(math.Abs(lat), math.Abs(want), 1e-5) {
					t.Failf("destination", "DestinationPoint(%v, %v, %v, %v) = %v, %v, want latitude %v", p.Y, p.X, d, b, lat, lon, want)
				}
			} else if err := unitVec(q).cross(w).norm() * earthR; !(err < tol) || unitVec(q).dot(w) < 0 {
				t.Failf("destination", "DestinationPoint(%v, %v, %v, %v) = %v, %v: %v m from the right point", p.Y, p.X, d, b, lat, lon, err)
			}
			if dd := geo.CoordDistance(p, q); !near(dd, d, 2*tol) {
				t.Failf("round-trip", "CoordDistance to DestinationPoint(%v, %v, %v, %v) = %v", p.Y, p.X, d, b, dd)
			}
			// bearing back
			if math.Abs(p.Y) < 89 && d >= 1000 && d < 1.9e7 && math.Abs(lat) < 89 {
				got := geo.GetAzimuth(p, q, wgs)
				diff := math.Abs(math.Mod(got-b+720+180, 360) - 180)
				if diff*math.Pi/180*math.Abs(sd)*earthR > 1 {
					t.Failf("round-trip", "GetAzimuth to DestinationPoint(%v, %v, %v, %v) = %v", p.Y, p.X, d, b, got)
				}
			}
			t.Trace()
		})
	}})
}
