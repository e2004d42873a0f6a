package main

// Simplification, vectors and angles, point buffers (S01, V01, F01).

import (
	"fmt"
	"math"

	geo "github.com/hzw456/go-geo"
)

// dpChecker: can the recursive definition turn line[s..e] into got[gs..ge]? Ties between farthest
// points may be broken either way, comparisons closer to the threshold than eps may go either way.
// Every question is answered once.
type dpChecker struct {
	line, got geo.LineString
	thr, eps  float64
	wgs       bool
	span      map[[2]int]*dpSpan
	memo      map[[4]int]bool
	why       string
}

type dpSpan struct {
	best float64
	far  []int // the points as far away as the farthest
}

func (d *dpChecker) at(s, e int) *dpSpan {
	k := [2]int{s, e}
	if v := d.span[k]; v != nil {
		return v
	}
	v := &dpSpan{}
	ds := make([]float64, e-s)
	for i := s + 1; i < e; i++ {
		q, _ := refClosest(d.line[i], d.line[s], d.line[e])
		ds[i-s] = refDist(d.line[i], q, d.wgs)
		v.best = math.Max(v.best, ds[i-s])
	}
	for i := s + 1; i < e; i++ {
		if ds[i-s] >= v.best-d.eps {
			v.far = append(v.far, i)
		}
	}
	d.span[k] = v
	return v
}

func (d *dpChecker) valid(s, e, gs, ge int) bool {
	if ge-gs > e-s {
		return false
	}
	k := [4]int{s, e, gs, ge}
	if v, ok := d.memo[k]; ok {
		return v
	}
	v := d.at(s, e)
	res := false
	switch {
	case ge-gs == 1:
		res = v.best <= d.thr+d.eps
		if !res {
			d.why = fmt.Sprintf("a point between %d and %d lies %v from the segment, threshold %v", s, e, v.best, d.thr)
		}
	case v.best <= d.thr-d.eps || (d.eps == 0 && v.best <= d.thr):
		d.why = fmt.Sprintf("points between %d and %d are kept though all lie within %v of the segment, threshold %v", s, e, v.best, d.thr)
	default:
		d.why = fmt.Sprintf("no kept point between %d and %d is the farthest (%v)", s, e, v.best)
	search:
		for _, j := range v.far {
			for g := gs + 1; g < ge; g++ {
				if d.line[j] == d.got[g] && d.valid(s, j, gs, g) && d.valid(j, e, g, ge) {
					res = true
					break search
				}
			}
		}
	}
	d.memo[k] = res
	return res
}

func checkDP(t *T, line geo.LineString, thr, eps float64, srid geo.SRID) {
	before := Snapshot(line)
	got := geo.DouglasPeuckerSimplify(line, thr, srid)
	t.ops++
	if Snapshot(line) != before {
		t.Failf("argument", "DouglasPeuckerSimplify changed its argument to %v", line)
	}
	bad := func(why string) {
		t.Failf("dp", "DouglasPeuckerSimplify(%v, %v, %d) = %v: %s", line, thr, srid, got, why)
	}
	if len(line) < 3 {
		if len(got) != len(line) {
			bad("nothing to remove")
		}
		for i := range line {
			if got[i] != line[i] {
				bad("nothing to remove")
			}
		}
		return
	}
	if len(got) < 2 {
		bad("ends are missing")
	}
	n, m := len(line), len(got)
	if got[0] != line[0] || got[m-1] != line[n-1] || m > n {
		bad("not a subsequence of the line that keeps its ends")
	}
	d := &dpChecker{line: line, got: got, thr: thr, eps: eps, wgs: srid == geo.SRID_WGS84_GPS, span: map[[2]int]*dpSpan{}, memo: map[[4]int]bool{}}
	if !d.valid(0, n-1, 0, m-1) {
		bad(d.why)
	}
	t.Out(fmt.Sprintf("kept-%d-of-%d", min(len(got), 6), min(n, 6)))
	t.Trace()
}

func init() {
	const wgs = geo.SRID_WGS84_GPS
	register(&Prop{ID: "S01", Rule: measureRule + "; a result is accepted when the recursive definition can produce it, with ties between farthest points broken either way", Assum: []string{"thresholds are zero or more; distances closer to the threshold than 1e-9 of the unit are left open, except on integer grids where a distance equal to the threshold is exact"}, Run: func(c *Ctx) {
		thrs := []float64{0, 0.3, 0.75, 1, 1.3, 2, 2.9}
		xs := []struct {
			x    xf
			srid geo.SRID
			m    float64 // metres per unit for thresholds
		}{{xf{"identity", 1, 1, 0, 0}, geo.SRID_WGS84_PSEUDO_MERCATOR, 1}, {xf{"metres", 16, 16, 500000, 4500000}, geo.SRID_WGS84_UTM_ZONE_50N, 16}, {xf{"lon-lat", 1.0 / 1024, 1.0 / 1024, 113.25, 23.5}, wgs, 108.6}, {xf{"degrees planar", 1.0 / 1024, 1.0 / 1024, 113.25, 23.5}, 0, 1.0 / 1024}, {xf{"microscopic", 1.0 / (1 << 30), 1.0 / (1 << 30), 3.0 / (1 << 30), -1.0 / (1 << 30)}, geo.SRID_WGS84_PSEUDO_MERCATOR, 1.0 / (1 << 30)}}
		one := func(t *T, l []ip, xi, ti int) {
			x := xs[xi]
			t.Desc(func() string { return fmt.Sprint(l, x.x.name, thrs[ti]) })
			eps := 1e-9 * x.m
			thr := thrs[ti] * x.m
			if x.srid == wgs {
				eps = 1e-6
			}
			L := x.x.line(l)
			checkDP(t, L, thr, eps, x.srid)
		}
		// exact ties: all points on or above a horizontal base, axis-aligned distances
		for _, n := range Pick(c, []int{1, 2, 3, 4, 5}, []int{1, 2, 3, 4, 5, 6}, []int{1, 2, 3, 4, 5, 6, 7}) {
			n := n
			k := gridPts(0, 0, 2, 2, 1)
			c.Enum(fmt.Sprintf("lines of %d points on a 3x3 grid", n), Pow(len(k), n)*int64(len(xs)), func(i int64, t *T) {
				xi := int(i % int64(len(xs)))
				i /= int64(len(xs))
				var l []ip
				for _, v := range Digits(i, len(k), n, nil) {
					l = append(l, k[v])
				}
				for ti := range thrs {
					one(t, l, xi, ti)
				}
			})
		}
		hn := Pick(c, 7, 8, 9)
		c.Enum("profiles over a horizontal base", Pow(4, hn)*int64(len(xs)), func(i int64, t *T) {
			xi := int(i % int64(len(xs)))
			i /= int64(len(xs))
			l := []ip{{0, 0}}
			for j, v := range Digits(i, 4, hn, nil) {
				l = append(l, ip{int64(j + 1), int64(v)})
			}
			l = append(l, ip{int64(hn + 1), 0})
			for ti := range thrs {
				one(t, l, xi, ti)
			}
		})
		c.Enum("threshold exactly reached", Pow(4, 5)*4, func(i int64, t *T) {
			thr := float64(i % 4)
			l := geo.LineString{{X: 0, Y: 0}}
			mx := 0
			for j, v := range Digits(i/4, 4, 5, nil) {
				l = append(l, geo.Point{X: float64(j + 1), Y: float64(v)})
				mx = max(mx, v)
			}
			l = append(l, geo.Point{X: 8, Y: 0})
			t.Desc(func() string { return fmt.Sprint(l, thr) })
			got := geo.DouglasPeuckerSimplify(l, thr, 0)
			t.ops++
			if (len(got) == 2) != (float64(mx) <= thr) {
				t.Failf("exact", "DouglasPeuckerSimplify(%v, %v) = %v; the farthest point is at %d", l, thr, got, mx)
			}
		})
		ln := sizes(4, Pick(c, 60, 200, 400), Pick(c, 129, 513, 1025))
		c.Enum("long lines", int64(nFamilies*len(ln)*len(thrs)*len(xs)), func(i int64, t *T) {
			d := Radix(i, []int{nFamilies, len(ln), len(thrs), len(xs)}, nil)
			l := familyRing(d[0], ln[d[1]])
			one(t, l, d[3], d[2])
			one(t, append(append([]ip{}, l...), l[0]), d[3], d[2])
		})
		mixedSimplify(c)
	}})

	register(&Prop{ID: "V01", Rule: measureRule, Assum: []string{"coordinates of at most 2e13 in magnitude; angles are compared to 1e-9 radians, around a full turn", "CacQuadrantAngle: points differ"}, Run: func(c *Ctx) {
		angX := append([]xf{}, xfsFine...)
		for i, x := range angX {
			if x.name == "large" {
				angX[i] = xf{"large", 4096, 4096, -2000000, 3000000}
			}
		}
		angX = append(angX, xf{"far off", 1 << 20, 1 << 20, 1 << 40, -1 << 44})
		g := gridPts(-2, -2, 2, 2, 1)
		if c.Thorough() {
			k := int64(Pick(c, 2, 4, 6))
			g = gridPts(-k, -k, k, k, 1)
		}
		m := int64(len(g))
		turn := func(a, b float64) float64 { return math.Abs(math.Mod(a-b+5*math.Pi, 2*math.Pi) - math.Pi) }
		c.Enum("angles of three points", m*m*m*int64(len(angX)), func(i int64, t *T) {
			p, o, q, x := g[i%m], g[i/m%m], g[i/m/m%m], angX[i/m/m/m]
			P, O, Q := x.p(p), x.p(o), x.p(q)
			t.Desc(func() string { return fmt.Sprint(P, O, Q) })
			a, err := geo.CacAngle(P, O, Q)
			cv, cerr := geo.CacConvex(P, O, Q)
			t.ops += 2
			if p == o || q == o {
				if err == nil || cerr == nil {
					t.Failf("repeat", "CacAngle/CacConvex(%v, %v, %v) found no error in repeated points", P, O, Q)
				}
				t.Out("repeated")
				return
			}
			if err != nil || cerr != nil {
				t.Failf("error", "CacAngle/CacConvex(%v, %v, %v): %v, %v", P, O, Q, err, cerr)
			}
			ux, uy, vx, vy := float64(p.x-o.x), float64(p.y-o.y), float64(q.x-o.x), float64(q.y-o.y)
			w := math.Atan2(ux*vy-uy*vx, ux*vx+uy*vy)
			if turn(a, w) > 1e-9 || a < 0 || a > 2*math.Pi {
				t.Failf("angle", "CacAngle(%v, %v, %v) = %v, want %v", P, O, Q, a, math.Mod(w+2*math.Pi, 2*math.Pi))
			}
			if orient(p, o, q) == 0 && ux*vx+uy*vy > 0 && turn(a, 0) > 1e-9 {
				t.Failf("angle", "CacAngle(%v, %v, %v) = %v", P, O, Q, a)
			}
			want := int8(2)
			switch {
			case orient(p, o, q) > 0:
				want = 0
			case orient(p, o, q) < 0:
				want = 1
			}
			if cv != want {
				t.Failf("convex", "CacConvex(%v, %v, %v) = %d, want %d", P, O, Q, cv, want)
			}
			t.Out(fmt.Sprintf("convex-%d", cv))
			t.Trace()
		})
		c.Enum("directions", m*m*int64(len(angX)), func(i int64, t *T) {
			p, q, x := g[i%m], g[i/m%m], angX[i/m/m]
			P, Q := x.p(p), x.p(q)
			t.Desc(func() string { return fmt.Sprint(P, Q) })
			a, err := geo.CacQuadrantAngle(P, Q)
			t.ops++
			if p == q {
				if err == nil {
					t.Failf("repeat", "CacQuadrantAngle(%v, %v) found no error", P, Q)
				}
				return
			}
			if w := math.Atan2(float64(q.y-p.y), float64(q.x-p.x)); err != nil || turn(a, w) > 1e-9 || a < 0 || a > 2*math.Pi {
				t.Failf("quadrant", "CacQuadrantAngle(%v, %v) = %v, %v, want %v", P, Q, a, err, math.Mod(w+2*math.Pi, 2*math.Pi))
			}
			t.Trace()
		})
		vs := []float64{1, 0.5, 1024, 0.001, 1e6, 1e-6, 3e-7, 7e-8, 1e-9, 1e-11, 1e-13, 1e-16, 1e-20, 1e-50, 1e-100, 1e-140, 1e9, 1e12, 1e15, 1e17, 1e30, 1e100, 1e140}
		c.Enum("vectors", m*m*int64(len(vs)), func(i int64, t *T) {
			s := vs[i/m/m]
			p, q := g[i%m], g[i/m%m]
			a := geo.Vector2{X: float64(p.x) * s, Y: float64(p.y) * s}
			b := geo.Vector2{X: float64(q.x) * s, Y: float64(q.y) * s}
			a0, b0 := a, b
			t.Desc(func() string { return fmt.Sprint(a, b) })
			eq := func(name string, got, want float64) {
				t.ops++
				if !near(got, want, 1e-12*(math.Abs(want)+s)) {
					t.Failf("vector", "%s of %v, %v = %v, want %v", name, a0, b0, got, want)
				}
			}
			eq2 := func(name string, got, want float64) {
				t.ops++
				if !near(got, want, 1e-12*(math.Abs(want)+s*s)) {
					t.Failf("vector", "%s of %v, %v = %v, want %v", name, a0, b0, got, want)
				}
			}
			eqv := func(name string, got geo.Vector2, x, y float64) { eq(name+" X", got.X, x); eq(name+" Y", got.Y, y) }
			eqv("Add", a.Add(b), a0.X+b0.X, a0.Y+b0.Y)
			eqv("Add()", geo.Add(a, b), a0.X+b0.X, a0.Y+b0.Y)
			eqv("Sub", a.Sub(b), a0.X-b0.X, a0.Y-b0.Y)
			eq2("Dot", a.Dot(b), a0.X*b0.X+a0.Y*b0.Y)
			eq2("Cross", a.Cross(b), a0.X*b0.Y-a0.Y*b0.X)
			eq("Length", a.Length(), math.Hypot(a0.X, a0.Y))
			eq2("LengthSq", a.LengthSq(), a0.X*a0.X+a0.Y*a0.Y)
			if a.Equal(b) != (p == q) {
				t.Failf("vector", "%v Equal %v = %v", a, b, a.Equal(b))
			}
			if a != a0 || b != b0 {
				t.Failf("argument", "vector operations changed their operands %v %v", a0, b0)
			}
			eqv("NewVector2", *geo.NewVector2(a.X, b.Y), a0.X, b0.Y)
			P, Q := geo.Point{X: a.X, Y: a.Y}, geo.Point{X: b.X, Y: b.Y}
			eqv("ConvertPointToVector", *geo.ConvertPointToVector(P, Q), b0.X-a0.X, b0.Y-a0.Y)
			eqv("ConvertSegToVector", *geo.ConvertSegToVector(geo.LineSegment{Start: P, End: Q}), b0.X-a0.X, b0.Y-a0.Y)
			k := []float64{-2, 0.5, 3}[(i/7)%3]
			d := a.Clone()
			d.Multiply(k)
			eqv("Multiply", *d, k*a0.X, k*a0.Y)
			d = a.Clone()
			d.Divide(k)
			eqv("Divide", *d, a0.X/k, a0.Y/k)
			if a != a0 {
				t.Failf("clone", "changing the clone changed the vector %v", a0)
			}
			if l := math.Hypot(a0.X, a0.Y); l > 0 {
				n := geo.Normalize(a)
				d = a.Clone()
				d.Normalize()
				if !near(n.X, a0.X/l, 1e-12) || !near(n.Y, a0.Y/l, 1e-12) || !near(d.X, a0.X/l, 1e-12) || !near(d.Y, a0.Y/l, 1e-12) || a != a0 {
					t.Failf("normalize", "Normalize of %v = %v, %v", a0, *n, *d)
				}
			}
			t.Trace()
		})
		mixedAngles(c, turn)
	}})

	register(&Prop{ID: "F01", Rule: measureRule, Assum: []string{"centre coordinates up to 1e7, widths 0 and from 1e-12 to 1e15"}, Run: func(c *Ctx) {
		var cs []geo.Point
		for _, x := range []float64{-180, -71.5, -1, 0, 0.25, 113.324, 179.9, 500000, -1e7} {
			for _, y := range []float64{-90, -33.3, 0, 23.106, 89.5, 4.5e6, 1e7} {
				cs = append(cs, geo.Point{X: x, Y: y})
			}
		}
		ws := []float64{0, -1, -1e-9, -0.5, 1e-4, 1e-3, 0.01, 0.1, 0.5, 1, 2, 3.7, 10, 100, 1234.5, 1e5, 1e6}
		for k := -12; k <= 15; k++ { // every magnitude
			for _, m := range []float64{1, 2.3, 7} {
				ws = append(ws, m*math.Pow(10, float64(k)))
			}
		}
		for k := 1; k < Pick(c, 60, 600, 6000); k++ {
			ws = append(ws, float64(k)*0.37, float64(k)*11, float64(-k))
		}
		n := int64(len(cs))
		c.Enum("centres and widths", n*int64(len(ws)), func(i int64, t *T) {
			p, w := cs[i%n], ws[i/n]
			t.Desc(func() string { return fmt.Sprint(p, w) })
			b := p.Buffer(w)
			t.ops++
			bad := func(f string, a ...interface{}) {
				t.Failf("buffer", "Buffer(%v) of %v = %v: %s", w, p, b, fmt.Sprintf(f, a...))
			}
			if w < 0 {
				if b != nil {
					bad("negative width")
				}
				t.Out("negative")
				return
			}
			if len(b) != 1 || len(b[0]) < 4 {
				bad("not one ring")
			}
			r := b[0]
			if w == 0 { // its corners coincide: how often the point is repeated is not promised
				for _, q := range r {
					if q != p {
						bad("corner away from the centre")
					}
				}
				t.Trace()
				t.Out("width 0")
				return
			}
			if len(r) < 25 {
				bad("not a ring of 24 sides")
			}
			tol := 1e-9*w + 1e-14*(math.Abs(p.X)+math.Abs(p.Y))
			if !nearPt(r[0], r[len(r)-1], math.Max(tol, 1e-9)) {
				bad("not closed")
			}
			r = r[:len(r)-1]
			for len(r) > 24 && nearPt(r[len(r)-1], r[0], tol) {
				r = r[:len(r)-1]
			}
			if len(r) != 24 {
				bad("%d corners", len(r))
			}
			// a coordinate is rounded once, to the spacing of the numbers around it
			ulp := func(v float64) float64 { v = math.Abs(v) + w; return math.Nextafter(v, math.Inf(1)) - v }
			round := ulp(p.X) + ulp(p.Y)
			start := math.Atan2(r[0].Y-p.Y, r[0].X-p.X)
			for k, q := range r {
				if d := math.Hypot(q.X-p.X, q.Y-p.Y); !near(d, w, round+1e-12*w) {
					bad("corner %d lies %v from the centre", k, d)
				}
				a := start + float64(k)*math.Pi/12
				if !nearPt(q, geo.Point{X: p.X + w*math.Cos(a), Y: p.Y + w*math.Sin(a)}, 3*round+1e-10*w) {
					bad("corner %d", k)
				}
			}
			area := 0.0
			for k, q := range r {
				n := r[(k+1)%24]
				area += ((q.X-p.X)*(n.Y-p.Y) - (n.X-p.X)*(q.Y-p.Y)) / 2
			}
			if !near(area, 12*w*w*math.Sin(math.Pi/12), 1e-6*w*w+100*w*tol) {
				bad("signed area %v", area)
			}
			t.Trace()
			t.Out("ring")
		})
	}})
}
