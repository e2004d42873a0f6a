package main

import (
	"fmt"
	"math"

	geo "github.com/hzw456/go-geo"
)

var planarAssum = []string{
	"coordinates lie on binary grids (all cases under seven scalings and offsets from 1/1024 at lon-lat offsets to 65536 at offsets of 3e7) so that the exact answer is defined; points are exactly on a boundary or farther than 1e-5 from it",
	"rings are closed (last point equals first)",
}

const planarRule = "every case of the stated grids is enumerated, shown to the code under each coordinate transform, and compared with exact integer geometry"

func relName(r geo.GeometryRealation) string {
	switch r {
	case geo.RELA_UNKNOWN:
		return "UNKNOWN"
	case geo.RELA_DISJOINT:
		return "DISJOINT"
	case geo.RELA_CONTAIN:
		return "CONTAIN"
	case geo.RELA_EQUAL:
		return "EQUAL"
	case geo.RELA_TOUCH:
		return "TOUCH"
	case geo.RELA_COVER:
		return "COVER"
	case geo.RELA_INTERSECT:
		return "INTERSECT"
	}
	return fmt.Sprint(int(r))
}

func wantPip(w int) geo.GeometryRealation {
	return [...]geo.GeometryRealation{geo.RELA_DISJOINT, geo.RELA_TOUCH, geo.RELA_CONTAIN}[w+1]
}

// checkPip compares IsPointInPolygon on all query points.
func checkPip(t *T, p ipoly, qs []ip, x xf) {
	gp := x.poly(p)
	var h uint64
	for _, q := range qs {
		got := geo.IsPointInPolygon(x.p(q), gp)
		w := p.where(q)
		h = h*3 + uint64(w+1)
		t.ops++
		if got != wantPip(w) {
			t.Failf("pip", "IsPointInPolygon(%v, %v) = %s, want %s (%s, integer point %v in %v)", x.p(q), gp, relName(got), relName(wantPip(w)), x.name, q, p)
		}
	}
	t.Trace()
	t.Obs(h)
}

// polygons of n vertices over grid points, doubled so that query points can lie half way
func gridRing(i int64, pts []ip, n int) ring {
	r := make(ring, n)
	for k := 0; k < n; k++ {
		p := pts[i%int64(len(pts))]
		i /= int64(len(pts))
		r[k] = ip{2 * p.x, 2 * p.y}
	}
	return r
}

func bboxGrid(p ipoly, m int64, step int64) []ip {
	b := [4]int64{math.MaxInt32, math.MaxInt32, math.MinInt32, math.MinInt32}
	for _, v := range p[0] {
		b[0], b[1] = min(b[0], v.x), min(b[1], v.y)
		b[2], b[3] = max(b[2], v.x), max(b[3], v.y)
	}
	return gridPts(b[0]-m, b[1]-m, b[2]+m, b[3]+m, step)
}

func init() {
	register(&Prop{ID: "P01", Rule: planarRule, Assum: planarAssum, Run: func(c *Ctx) {
		type gs struct {
			n int
			g int64
		}
		for _, s := range Pick(c, []gs{{3, 4}, {4, 4}, {5, 3}, {6, 3}}, []gs{{3, 6}, {4, 5}, {5, 4}, {6, 3}, {7, 3}}, []gs{{3, 9}, {4, 7}, {5, 5}, {6, 4}, {7, 3}, {8, 3}}) {
			s := s
			pts := gridPts(0, 0, s.g-1, s.g-1, 1)
			qs := gridPts(-1, -1, 2*s.g-1, 2*s.g-1, 1)
			c.Enum(fmt.Sprintf("rings of %d vertices on a %dx%d grid", s.n, s.g, s.g), Pow(len(pts), s.n), func(i int64, t *T) {
				r := gridRing(i, pts, s.n)
				if !r.simple() {
					t.Out("not-simple")
					return
				}
				t.Out("simple")
				p := ipoly{r}
				t.Desc(func() string { return "ring " + r.String() })
				if s.n <= 4 {
					for _, x := range xfs {
						checkPip(t, p, qs, x)
					}
				} else {
					checkPip(t, p, qs, xfs[i%int64(len(xfs))])
				}
			})
		}
		c.Enum("catalogue of shapes, holes", int64(len(shapes)*len(xfs)*2), func(i int64, t *T) {
			s := shapes[i%int64(len(shapes))]
			i /= int64(len(shapes))
			x := xfs[i%int64(len(xfs))]
			rev := i/int64(len(xfs)) == 1
			t.Desc(func() string { return s.name + " " + x.name })
			for k := range s.p[0] {
				p := append(ipoly{}, s.p...)
				p[0] = p[0].rotated(k)
				if rev {
					for j := range p {
						p[j] = p[j].reversed()
					}
				}
				checkPip(t, p, bboxGrid(p, 2, 1), x)
			}
		})
		// one hole: every triangle or quadrilateral strictly inside
		hp := gridPts(1, 1, 4, 4, 1)
		for _, n := range []int{3, 4} {
			n := n
			c.Enum(fmt.Sprintf("square with every hole of %d vertices on a 4x4 grid", n), Pow(len(hp), n), func(i int64, t *T) {
				h := gridRing(i, hp, n)
				if !h.simple() {
					return
				}
				p := ipoly{{{0, 0}, {10, 0}, {10, 10}, {0, 10}}, h}
				t.Desc(func() string { return "hole " + h.String() })
				checkPip(t, p, gridPts(-1, -1, 11, 11, 1), xfs[i%int64(len(xfs))])
			})
		}
		ln := sizes(4, Pick(c, 40, 120, 300), Pick(c, 258, 514, 1026))
		c.Enum("families of large rings", int64(nFamilies*len(ln)*len(xfs)), func(i int64, t *T) {
			k := int(i % nFamilies)
			i /= nFamilies
			n := ln[i%int64(len(ln))]
			x := xfs[i/int64(len(ln))]
			r := familyRing(k, n)
			t.Desc(func() string { return fmt.Sprintf("family %d, %d vertices, %s", k, n, x.name) })
			if !r.simple() {
				t.Out("skipped")
				return
			}
			if n%2 == 0 {
				r = r.reversed()
			}
			p := ipoly{r.rotated(n % len(r))}
			var qs []ip
			for _, v := range r {
				for _, d := range []ip{{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1}, {-1, -1}, {3, 1}, {-100, 0}, {100, 0}, {0, 1000}} {
					qs = append(qs, ip{v.x + d.x, v.y + d.y})
				}
			}
			for j := range r {
				a, b := r.edge(j)
				if (a.x+b.x)%2 == 0 && (a.y+b.y)%2 == 0 {
					qs = append(qs, ip{(a.x + b.x) / 2, (a.y + b.y) / 2})
				}
			}
			if x.sx < 1 && k == 2 { // keep distances above the scope's 1e-5
				x = xfs[0]
			}
			checkPip(t, p, qs, x)
		})
		hn := sizes(0, Pick(c, 40, 120, 300), Pick(c, 130, 257, 514))
		c.Enum("polygons with many holes", int64(len(hn)*len(xfs)), func(i int64, t *T) {
			n, x := hn[int(i)/len(xfs)], xfs[int(i)%len(xfs)]
			p := manyHoles(n)
			t.Desc(func() string { return fmt.Sprintf("%d holes, %s", n, x.name) })
			var qs []ip
			for k, h := range p {
				for j, v := range h {
					qs = append(qs, v, ip{v.x + 1, v.y}, ip{v.x, v.y + 1}, ip{v.x - 1, v.y + 1}, ip{v.x + int64(k%3), v.y - int64(j)})
				}
			}
			checkPip(t, p, qs, x)
		})
		mixedP01(c)
	}})

	wantSeg := [...]geo.GeometryRealation{geo.RELA_DISJOINT, geo.RELA_TOUCH, geo.RELA_INTERSECT}
	register(&Prop{ID: "P02", Rule: planarRule, Assum: planarAssum, Run: func(c *Ctx) {
		g := gridPts(0, 0, Pick[int64](c, 4, 5), 4, 1)
		n := int64(len(g))
		c.Enum("pairs of segments", n*n*n*n, func(i int64, t *T) {
			a, b, d, e := g[i%n], g[i/n%n], g[i/n/n%n], g[i/n/n/n]
			w := segRel(a, b, d, e)
			t.Out([]string{"disjoint", "touch", "cross"}[w])
			x := xfsFine[i%int64(len(xfsFine))]
			t.Desc(func() string { return fmt.Sprintf("%v-%v and %v-%v, %s", a, b, d, e, x.name) })
			got := geo.SegmentRelation(geo.LineSegment{Start: x.p(a), End: x.p(b)}, geo.LineSegment{Start: x.p(d), End: x.p(e)})
			t.ops++
			if got != wantSeg[w] {
				t.Failf("seg", "SegmentRelation(%v %v, %v %v) = %s, want %s", x.p(a), x.p(b), x.p(d), x.p(e), relName(got), relName(wantSeg[w]))
			}
			t.Trace()
			// two-point lines
			lr := geo.LineRelation(x.line([]ip{a, b}), x.line([]ip{d, e}))
			if (lr == geo.RELA_DISJOINT) != (w == relNone) || (lr != geo.RELA_DISJOINT && lr != geo.RELA_INTERSECT) {
				t.Failf("line", "LineRelation of the same = %s, want it disjoint: %v", relName(lr), w == relNone)
			}
		})
		// long segments: small changes of one end decide
		big := []int64{-1000, -999, -1, 0, 1, 2, 333, 500, 999, 1000}
		nb := int64(len(big))
		c.Enum("pairs of long segments", Pow(int(nb), 6), func(i int64, t *T) {
			j := i
			d := func() int64 { v := big[j%nb]; j /= nb; return v }
			a, b := ip{-1000, d()}, ip{1000, d()}
			e, f := ip{d(), d()}, ip{d(), d()}
			w := segRel(a, b, e, f)
			x := xfsFine[i%int64(len(xfsFine))]
			t.Desc(func() string { return fmt.Sprintf("%v-%v and %v-%v, %s", a, b, e, f, x.name) })
			got := geo.SegmentRelation(geo.LineSegment{Start: x.p(a), End: x.p(b)}, geo.LineSegment{Start: x.p(e), End: x.p(f)})
			t.ops++
			t.Out([]string{"disjoint", "touch", "cross"}[w])
			if got != wantSeg[w] {
				t.Failf("seg", "SegmentRelation(%v %v, %v %v) = %s, want %s", x.p(a), x.p(b), x.p(e), x.p(f), relName(got), relName(wantSeg[w]))
			}
		})
		h := gridPts(0, 0, 6, 6, 1)
		m := int64(len(h))
		c.Enum("point and segment", m*m*m*int64(len(xfsFine)), func(i int64, t *T) {
			a, b, p := h[i%m], h[i/m%m], h[i/m/m%m]
			x := xfsFine[i/m/m/m]
			t.Desc(func() string { return fmt.Sprintf("%v on %v-%v, %s", p, a, b, x.name) })
			t.ops++
			if got := geo.IsPointOnSegment(x.p(a), x.p(b), x.p(p)); got != onSeg(a, b, p) {
				t.Failf("on-seg", "IsPointOnSegment(%v, %v, %v) = %v", x.p(a), x.p(b), x.p(p), got)
			}
			t.Trace()
		})
		k := gridPts(0, 0, 2, 2, 1)
		qs := gridPts(-1, -1, 5, 5, 1)
		for n := 1; n <= Pick(c, 5, 6, 7); n++ {
			n := n
			c.Enum(fmt.Sprintf("points and lines of %d vertices", n), Pow(len(k), n), func(i int64, t *T) {
				l := []ip(gridRing(i, k, n))
				x := xfsFine[i%int64(len(xfsFine))]
				t.Desc(func() string { return fmt.Sprintf("line %v %s", l, x.name) })
				gl := x.line(l)
				for _, q := range qs {
					want := n == 1 && l[0] == q
					for j := 0; j+1 < n; j++ {
						want = want || onSeg(l[j], l[j+1], q)
					}
					t.ops++
					if got := geo.IsPointOnLine(x.p(q), gl); got != want {
						t.Failf("on-line", "IsPointOnLine(%v, %v) = %v", x.p(q), gl, got)
					}
				}
				t.Trace()
			})
		}
		for _, nn := range Pick(c, [][2]int{{2, 3}, {3, 2}, {3, 3}}, [][2]int{{2, 3}, {3, 2}, {3, 3}, {2, 4}, {4, 2}, {3, 4}}, [][2]int{{2, 3}, {3, 2}, {3, 3}, {2, 4}, {4, 2}, {3, 4}, {4, 3}, {2, 5}, {5, 2}, {4, 4}}) {
			nn := nn
			c.Enum(fmt.Sprintf("lines of %d and %d vertices", nn[0], nn[1]), Pow(len(k), nn[0]+nn[1]), func(i int64, t *T) {
				all := []ip(gridRing(i, k, nn[0]+nn[1]))
				l1, l2 := all[:nn[0]], all[nn[0]:]
				x := xfsFine[i%int64(len(xfsFine))]
				t.Desc(func() string { return fmt.Sprintf("lines %v and %v, %s", l1, l2, x.name) })
				meet := false
				for a := 0; a+1 < len(l1); a++ {
					for b := 0; b+1 < len(l2); b++ {
						meet = meet || segRel(l1[a], l1[a+1], l2[b], l2[b+1]) != relNone
					}
				}
				want := geo.RELA_DISJOINT
				if meet {
					want = geo.RELA_INTERSECT
				}
				t.ops++
				t.Out(relName(want))
				if got := geo.LineRelation(x.line(l1), x.line(l2)); got != want {
					t.Failf("line", "LineRelation(%v, %v) = %s, want %s", x.line(l1), x.line(l2), relName(got), relName(want))
				}
				t.Trace()
			})
		}
		// very long lines and a short one across each of their segments in turn
		vl := Pick(c, []int{63, 64, 65, 66, 101, 129, 257, 513}, []int{63, 64, 65, 66, 100, 101, 127, 128, 129, 130, 200, 257, 300, 500, 513, 1000, 1025, 2049})
		vrad := []int{len(vl), vl[len(vl)-1], 5, 4}
		c.Enum("very long lines", Product(vrad), func(i int64, t *T) {
			d := Radix(i, vrad, nil)
			n, at, kind, v := vl[d[0]], d[1], d[2], d[3]
			if at > n {
				return
			}
			var l1 []ip
			for k := 0; k < n; k++ {
				q := ip{int64(4 * k), 0}
				if v&2 == 2 {
					q.y = int64(k%3) * 2
				}
				l1 = append(l1, q)
			}
			u := int64(4*at) - 2
			l2 := [][]ip{{{u, -5}, {u, 9}}, {{u, 9}, {u, 5}}, {{u + 2, -3}, {u + 2, 0}}, {{u, -9}, {u, -3}, {u + 1, 9}}, {{u - 1, 7}, {u, 5}, {u + 1, 7}, {u + 1, 5}}}[kind]
			x := xfsFine[i%int64(len(xfsFine))]
			t.Desc(func() string { return fmt.Sprintf("line of %d points and %v, %s", n, l2, x.name) })
			meet, on := false, false
			for a := 0; a+1 < n; a++ {
				for b := 0; b+1 < len(l2); b++ {
					meet = meet || segRel(l1[a], l1[a+1], l2[b], l2[b+1]) != relNone
				}
				on = on || onSeg(l1[a], l1[a+1], ip{u, int64(kind)})
			}
			want := geo.RELA_DISJOINT
			if meet {
				want = geo.RELA_INTERSECT
			}
			if v&1 == 1 {
				for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
					l1[a], l1[b] = l1[b], l1[a]
				}
			}
			t.ops += 3
			t.Out(relName(want))
			g1, g2 := x.line(l1), x.line(l2)
			if got := geo.LineRelation(g1, g2); got != want {
				t.Failf("line", "LineRelation of a line of %d points and %v = %s, want %s", n, g2, relName(got), relName(want))
			}
			if got := geo.LineRelation(g2, g1); got != want {
				t.Failf("line", "LineRelation of %v and a line of %d points = %s, want %s", g2, n, relName(got), relName(want))
			}
			if got := geo.IsPointOnLine(x.p(ip{u, int64(kind)}), g1); got != on {
				t.Failf("on-line", "IsPointOnLine(%v, line of %d points) = %v", x.p(ip{u, int64(kind)}), n, got)
			}
			t.Trace()
		})
		// long lines: the only place where they meet may be anywhere
		mx := Pick(c, 34, 80, 200)
		ys := []int64{1, 2, 3, 4, 5, 6}
		rl := []int{mx, mx, 6, 4}
		c.Enum("long lines that meet at most once", Product(rl), func(i int64, t *T) {
			d := Radix(i, rl, nil)
			n, at, y, v := d[0]+2, d[1], ys[d[2]], d[3]
			var l1, l2 []ip
			for k := 0; k < n; k++ {
				l1 = append(l1, ip{int64(2 * k), int64(k%2) * 4})
			}
			for k := 0; k < mx; k++ {
				q := ip{int64(2*k) - 7, 20}
				if k == at {
					q.y = y
				}
				l2 = append(l2, q)
			}
			if v&1 == 1 {
				for a, b := 0, len(l2)-1; a < b; a, b = a+1, b-1 {
					l2[a], l2[b] = l2[b], l2[a]
				}
			}
			x := xfsFine[i%int64(len(xfsFine))]
			t.Desc(func() string { return fmt.Sprintf("%d points, dip %d to %d, %s", n, at, y, x.name) })
			meet := false
			for a := 0; a+1 < len(l1); a++ {
				for b := 0; b+1 < len(l2); b++ {
					meet = meet || segRel(l1[a], l1[a+1], l2[b], l2[b+1]) != relNone
				}
			}
			want := geo.RELA_DISJOINT
			if meet {
				want = geo.RELA_INTERSECT
			}
			if v&2 == 2 {
				l1, l2 = l2, l1
			}
			t.ops += 2
			t.Out(relName(want))
			if got := geo.LineRelation(x.line(l1), x.line(l2)); got != want {
				t.Failf("line", "LineRelation(%v, %v) = %s, want %s", x.line(l1), x.line(l2), relName(got), relName(want))
			}
			q := ip{int64(at) + int64(v) - 1, y - 1}
			on := false
			for j := 0; j+1 < len(l1); j++ {
				on = on || onSeg(l1[j], l1[j+1], q)
			}
			if got := geo.IsPointOnLine(x.p(q), x.line(l1)); got != on {
				t.Failf("on-line", "IsPointOnLine(%v, %v) = %v", x.p(q), x.line(l1), got)
			}
			t.Trace()
		})
		mixedP02(c)
	}})

	// what a segment's relation to a polygon may be
	checkSegPoly := func(t *T, p ipoly, gp geo.Polygon, a, b ip, x xf) geo.GeometryRealation {
		got := geo.SegPolyRelation(geo.LineSegment{Start: x.p(a), End: x.p(b)}, gp)
		t.ops++
		m := p.segMeets(a, b)
		wa, wb := p.where(a), p.where(b)
		fail := func(want string) {
			t.Failf("seg-poly", "SegPolyRelation(%v-%v, %v) = %s, want %s (%s; ends %d %d, boundary %d)", x.p(a), x.p(b), gp, relName(got), want, x.name, wa, wb, m)
		}
		switch {
		case m == relNone && wa < 0:
			if got != geo.RELA_DISJOINT {
				fail("DISJOINT: no point in common")
			}
		case m == relNone:
			if got != geo.RELA_CONTAIN {
				fail("CONTAIN: all of it in the interior")
			}
		case m == relCross || wa*wb < 0:
			if got != geo.RELA_INTERSECT {
				fail("INTERSECT: it crosses the boundary")
			}
		case wa < 0 && wb < 0:
			if got != geo.RELA_TOUCH {
				fail("TOUCH: outside, meets the boundary without crossing an edge")
			}
		case wa > 0 || wb > 0:
			if got != geo.RELA_COVER {
				fail("COVER: inside, meets the boundary without crossing an edge")
			}
		default:
			if got != geo.RELA_TOUCH && got != geo.RELA_COVER && got != geo.RELA_INTERSECT {
				fail("TOUCH, COVER or INTERSECT: an end lies on the boundary")
			}
		}
		t.Out(relName(got))
		return got
	}
	register(&Prop{ID: "P03", Rule: planarRule + "; segments against a catalogue of polygons (concave, with holes, with collinear vertices) and against every ring of 3 or 4 vertices", Assum: planarAssum, Run: func(c *Ctx) {
		q := gridPts(-2, -2, 13, 13, 1)
		n := int64(len(q))
		if !c.Thorough() {
			q = gridPts(-1, -1, 12, 12, 1)
			n = int64(len(q))
		}
		c.Enum("segments and catalogue shapes", int64(len(shapes))*n*n, func(i int64, t *T) {
			s := shapes[i%int64(len(shapes))]
			j := i / int64(len(shapes))
			a, b := q[j%n], q[j/n]
			x := xfs[(i+j)%int64(len(xfs))]
			t.Desc(func() string { return fmt.Sprintf("%s %s, %v-%v", s.name, x.name, a, b) })
			checkSegPoly(t, s.p, x.poly(s.p), a, b, x)
			t.Trace()
		})
		for _, nv := range []int{3, 4} {
			nv := nv
			g := gridPts(0, 0, 2, 2, 1)
			sq := gridPts(-1, -1, 5, 5, 1)
			c.Enum(fmt.Sprintf("segments and rings of %d vertices", nv), Pow(9, nv), func(i int64, t *T) {
				r := gridRing(i, g, nv)
				if !r.simple() {
					return
				}
				p := ipoly{r}
				for k, a := range sq {
					x := xfs[(i+int64(k))%int64(len(xfs))]
					gp := x.poly(p)
					for _, b := range sq {
						t.Desc(func() string { return fmt.Sprintf("ring %v %s, %v-%v", r, x.name, a, b) })
						checkSegPoly(t, p, gp, a, b, x)
					}
				}
				t.Trace()
			})
		}
		lq := gridPts(-2, -2, 12, 12, 2)
		ln := int64(len(lq))
		c.Enum("lines of three points and catalogue shapes", int64(len(shapes))*ln*ln*ln, func(i int64, t *T) {
			s := shapes[i%int64(len(shapes))]
			j := i / int64(len(shapes))
			l := []ip{lq[j%ln], lq[j/ln%ln], lq[j/ln/ln]}
			x := xfs[(i+j)%int64(len(xfs))]
			t.Desc(func() string { return fmt.Sprintf("%s %s, line %v", s.name, x.name, l) })
			got := geo.LinePolyRelation(x.line(l), x.poly(s.p))
			t.ops++
			checkLinePoly(t, s.p, l, got, "LinePolyRelation", x)
			t.Trace()
		})
		g := gridPts(0, 0, 4, 4, 1)
		gn := int64(len(g))
		tri := func(v int64) ring { return gridRing(v, g, 3) }
		c.Enum("triangles and catalogue shapes", gn*gn*gn*int64(len(shapes)), func(i int64, t *T) {
			s := shapes[i%int64(len(shapes))]
			r := tri(i/int64(len(shapes))).shifted(2, 2)
			if !r.simple() {
				return
			}
			x := xfs[i%int64(len(xfs))]
			t.Desc(func() string { return fmt.Sprintf("triangle %v and %s, %s", r, s.name, x.name) })
			checkPolyPoly(t, ipoly{r}, s.p, x)
			checkPolyPoly(t, s.p, ipoly{r}, x)
			t.Trace()
		})
		// large polygons: families of rings and rectangles with many holes
		maxN := Pick(c, 20, 32, 48)
		large := func(k, n int) ipoly {
			if k == nFamilies {
				return manyHoles(n)
			}
			return ipoly{familyRing(k, n)}
		}
		probe := func(p ipoly) (r []ip) {
			seen := map[ip]bool{}
			for _, h := range p {
				for k, v := range h {
					for _, d := range [][]ip{{{0, 0}, {1, 1}}, {{1, 0}}, {{0, -1}}, {{-1, 3}, {0, 0}}}[k%4] {
						q := ip{v.x + d.x, v.y + d.y}
						if !seen[q] {
							seen[q] = true
							r = append(r, q)
						}
					}
				}
			}
			return append(r, ip{-50, -50}, ip{1000, 1000})
		}
		c.Enum("segments, lines and large polygons", int64((nFamilies+1)*(maxN-3)), func(i int64, t *T) {
			k, n := int(i%int64(nFamilies+1)), int(i/int64(nFamilies+1))+4
			p := large(k, n)
			if !p[0].simple() {
				return
			}
			if n%2 == 1 {
				p[0] = p[0].reversed().rotated(n / 2 % len(p[0]))
			}
			pr := probe(p)
			for _, x := range []xf{xfs[0], xfs[n%len(xfs)]} {
				gp := x.poly(p)
				for _, a := range pr {
					for _, b := range pr {
						t.Desc(func() string { return fmt.Sprintf("large polygon %d with %d, %s, %v-%v", k, n, x.name, a, b) })
						checkSegPoly(t, p, gp, a, b, x)
					}
				}
				for j := range pr {
					l := append(append([]ip{}, pr[j:]...), pr[:j]...)
					for _, m := range []int{3, 5, len(l) / 2, len(l) - 3} {
						if m < 2 || m > len(l) {
							continue
						}
						t.Desc(func() string { return fmt.Sprintf("large polygon %d with %d, %s, line %v", k, n, x.name, l[:m]) })
						t.ops++
						got := geo.LinePolyRelation(x.line(l[:m]), gp)
						checkLinePoly(t, p, l[:m], got, "LinePolyRelation", x)
					}
				}
			}
			t.Trace()
		})
		// a hole (or a shell) of any number of vertices between a large rectangle and a small hole
		hs := sizes(4, Pick(c, 72, 140, 300), Pick(c, 258, 514, 1026))
		c.Enum("polygons with a large hole", int64(nFamilies*len(hs)*2), func(i int64, t *T) {
			k, n, hole := int(i%nFamilies), hs[i/nFamilies%int64(len(hs))], i/nFamilies/int64(len(hs)) == 0
			r := familyRing(k, n)
			b := r[0]
			e := r[0]
			for _, v := range r {
				b, e = ip{min(b.x, v.x), min(b.y, v.y)}, ip{max(e.x, v.x), max(e.y, v.y)}
			}
			m := len(r)
			at := []int{0, 1, m / 3, m / 2, m - 2, m - 1}
			var pr []ip
			for j, v := range at {
				q := r[v]
				pr = append(pr, q, ip{q.x + []int64{0, 1, -1}[j%3], q.y + []int64{-1, 0, 1}[j%3]})
			}
			pr = append(pr, ip{b.x - 3, b.y - 3}, ip{e.x + 3, e.y + 3}, ip{b.x - 3, e.y + 3}, ip{b.x - 20, b.y}, ip{e.x + 40, e.y}, ip{(b.x + e.x) / 2, (b.y + e.y) / 2}, ip{e.x + 4, b.y - 4}, ip{e.x + 8, b.y - 8})
			p := ipoly{r}
			if hole {
				shell := ring{{b.x - 10, b.y - 10}, {e.x + 20, b.y - 10}, {e.x + 20, e.y + 10}, {b.x - 10, e.y + 10}}
				small := ring{{e.x + 4, b.y - 4}, {e.x + 4, b.y}, {e.x + 8, b.y}, {e.x + 8, b.y - 4}}
				p = ipoly{shell, r, small}
				if n%2 == 0 {
					p = ipoly{shell.reversed().rotated(2), small, r.reversed()}
				}
			}
			for _, x := range []xf{xfs[0], xfs[n%len(xfs)]} {
				gp := x.poly(p)
				for _, a := range pr {
					for _, q := range pr {
						t.Desc(func() string {
							return fmt.Sprintf("family %d of %d as a hole (%v), %s, %v-%v", k, n, hole, x.name, a, q)
						})
						checkSegPoly(t, p, gp, a, q, x)
					}
					// a small triangle there
					tri := ipoly{{a, {a.x + 2, a.y}, {a.x + 1, a.y + 3}}}
					checkPolyPoly(t, tri, p, x)
					checkPolyPoly(t, p, tri, x)
				}
				for j := range pr {
					l := append(append([]ip{}, pr[j:]...), pr[:j]...)
					for _, m := range []int{3, len(l) / 2} {
						t.Desc(func() string {
							return fmt.Sprintf("family %d of %d as a hole (%v), %s, line %v", k, n, hole, x.name, l[:m])
						})
						t.ops++
						got := geo.LinePolyRelation(x.line(l[:m]), gp)
						checkLinePoly(t, p, l[:m], got, "LinePolyRelation", x)
					}
				}
			}
			t.Trace()
		})
		c.Enum("pairs of large polygons", int64((nFamilies+1)*(nFamilies+1)*(maxN/2-1)*25), func(i int64, t *T) {
			d := Radix(i, []int{nFamilies + 1, nFamilies + 1, maxN/2 - 1, 5, 5}, nil)
			a, b := large(d[0], d[2]+4), large(d[1], 2*(d[2]+2))
			if !a[0].simple() || !b[0].simple() {
				return
			}
			for _, q := range []ipoly{b.shifted([]int64{-11, 0, 1, 6, 500}[d[3]], []int64{-7, 0, 2, 9, 40}[d[4]]), b.scaled(40).shifted(-100*int64(d[3]), -333*int64(d[4]))} {
				x := xfs[i%int64(len(xfs))]
				t.Desc(func() string { return fmt.Sprintf("%v and %v, %s", a, q, x.name) })
				checkPolyPoly(t, a, q, x)
				checkPolyPoly(t, q, a, x)
			}
			t.Trace()
		})
		// two rings of many vertices each, apart, across and within each other
		pn := Pick(c, []int{40, 65, 101, 130}, []int{40, 64, 65, 66, 101, 128, 129, 130, 257}, []int{40, 50, 64, 65, 66, 100, 101, 128, 129, 130, 200, 257, 300, 513})
		pr := []int{len(pn), len(pn), nFamilies, nFamilies, 7}
		c.Enum("pairs of rings of many vertices", Product(pr), func(i int64, t *T) {
			d := Radix(i, pr, nil)
			a, b := ipoly{familyRing(d[2], pn[d[0]])}, ipoly{familyRing(d[3], pn[d[1]])}
			switch d[4] {
			case 0:
				b = b.shifted(3, 1)
			case 1:
				b = b.shifted(-7, 5)
			case 2: // one far larger
				b = b.scaled(int64(40*pn[d[0]])).shifted(-500, -1000)
			case 3:
				a = a.scaled(60).shifted(-11, -9)
			case 4:
				b = b.shifted(-4*int64(pn[d[1]])-50, 0)
			case 5: // a corner of one in the middle of the other
				v, w := a[0][len(a[0])/2], b[0][len(b[0])-1]
				b = b.shifted(v.x-w.x, v.y-w.y)
			case 6:
				v, w := a[0][len(a[0])-2], b[0][1]
				b = b.shifted(v.x-w.x+1, v.y-w.y+1)
			}
			x := xfs[i%int64(len(xfs))]
			t.Desc(func() string {
				return fmt.Sprintf("family %d of %d and family %d of %d in position %d, %s", d[2], pn[d[0]], d[3], pn[d[1]], d[4], x.name)
			})
			checkPolyPoly(t, a, b, x)
			checkPolyPoly(t, b, a, x)
			t.Trace()
		})
		c.Enum("pairs of shifted catalogue shapes", int64(len(shapes)*len(shapes))*17*17, func(i int64, t *T) {
			a, b := shapes[i%int64(len(shapes))], shapes[i/int64(len(shapes))%int64(len(shapes))]
			j := i / int64(len(shapes)*len(shapes))
			dx, dy := j%17-8, j/17-8
			for _, k := range []int64{1, 4} {
				pb := b.p.scaled(k).shifted(2*dx, 2*dy)
				x := xfs[j%int64(len(xfs))]
				t.Desc(func() string {
					return fmt.Sprintf("%s and %s scaled %d shifted %d,%d, %s", a.name, b.name, k, 2*dx, 2*dy, x.name)
				})
				checkPolyPoly(t, a.p, pb, x)
				checkPolyPoly(t, pb, a.p, x)
			}
			t.Trace()
		})
		mixedP03(c, checkSegPoly)
	}})

	register(&Prop{ID: "P04", Rule: planarRule, Assum: planarAssum, Run: func(c *Ctx) {
		type gs struct {
			n int
			g int64
		}
		for _, s := range Pick(c, []gs{{3, 4}, {4, 4}, {5, 3}, {6, 3}}, []gs{{3, 5}, {4, 5}, {5, 4}, {6, 3}, {7, 3}}, []gs{{3, 8}, {4, 6}, {5, 5}, {6, 4}, {7, 3}, {8, 3}}) {
			s := s
			pts := gridPts(0, 0, s.g-1, s.g-1, 1)
			c.Enum(fmt.Sprintf("rings of %d vertices on a %dx%d grid", s.n, s.g, s.g), Pow(len(pts), s.n), func(i int64, t *T) {
				r := gridRing(i, pts, s.n)
				x := xfs[i%int64(len(xfs))]
				t.Desc(func() string { return fmt.Sprintf("ring %v %s", r, x.name) })
				want := r.crosses()
				p := x.poly(ipoly{r})
				t.ops++
				if got := p.SelfIntersect(); got != want {
					t.Failf("self", "SelfIntersect of %v = %v, edges cross: %v", p, got, want)
				}
				// lon-lat range: only transforms that stay within it
				lonlat := xfs[[]int{0, 1, 2, 3, 6}[i%5]]
				p = lonlat.poly(ipoly{r})
				a := math.Abs(float64(r.area2())/2) * lonlat.sx * lonlat.sx
				ok := !want && a >= 1e-10
				if a == 0 || a > 2e-10 {
					t.ops++
					if err := p.Verify(); (err == nil) != ok {
						t.Failf("verify", "Verify of %v = %v; edges cross: %v, area %v", p, err, want, a)
					}
					t.Out(fmt.Sprintf("valid-%v", ok))
				}
				t.Trace()
			})
		}
		ln := sizes(4, Pick(c, 60, 200, 500), Pick(c, 258, 1026, 2049))
		c.Enum("large rings with one crossing anywhere", int64(nFamilies*len(ln)), func(i int64, t *T) {
			k := int(i % nFamilies)
			n := ln[i/nFamilies]
			r := familyRing(k, n)
			t.Desc(func() string { return fmt.Sprintf("family %d, %d vertices", k, n) })
			for _, o := range []ring{r, r.reversed()} {
				t.ops++
				if p := xfs[0].poly(ipoly{o}); p.SelfIntersect() != o.crosses() {
					t.Failf("self", "SelfIntersect of %v = %v", p, !o.crosses())
				}
			}
			// exchange two neighbours: crosses or not, as the exact test says
			for j := range r {
				if n > 210 && j > 2 && j < len(r)-3 && j != len(r)/2 && j != len(r)/3 {
					continue
				}
				o := append(ring{}, r...)
				o[j], o[(j+1)%len(o)] = o[(j+1)%len(o)], o[j]
				t.ops++
				if p := xfs[0].poly(ipoly{o}); p.SelfIntersect() != o.crosses() {
					t.Failf("self", "SelfIntersect of %v = %v", p, !o.crosses())
				}
			}
			t.Trace()
		})
		lon := []float64{-180.5, -180, -179, -90.5, -90, 0, 45, 90, 90.5, 179, 180, 180.5, 200}
		lat := append(append([]float64{}, lon...), math.Nextafter(90, 100), math.Nextafter(-90, -100), 90.005, -90.005)
		lon = append(lon, math.Nextafter(180, 200), math.Nextafter(-180, -200), 180.01, -180.01)
		c.Enum("coordinate ranges", int64(len(lon)*len(lat)*4), func(i int64, t *T) {
			x, y := lon[i%int64(len(lon))], lat[i/int64(len(lon))%int64(len(lat))]
			k := int(i / int64(len(lon)*len(lat)))
			pts := []geo.Point{{X: 1, Y: 1}, {X: 3, Y: 1}, {X: 3, Y: 3}, {X: 1, Y: 3}}
			pts[k] = geo.Point{X: x, Y: y}
			ir := ring{}
			for _, p := range pts {
				ir = append(ir, ip{int64(p.X * 2), int64(p.Y * 2)})
			}
			p := geo.Polygon{append(append(geo.LinearRing{}, pts...), pts[0])}
			t.Desc(func() string { return fmt.Sprint(p) })
			ok := x >= -180 && x <= 180 && y >= -90 && y <= 90 && !ir.crosses() && ir.area2() != 0
			t.ops++
			t.Out(fmt.Sprintf("valid-%v", ok))
			if err := p.Verify(); (err == nil) != ok {
				t.Failf("verify", "Verify of %v = %v, want valid: %v", p, err, ok)
			}
		})
		c.Enum("few points", 5, func(i int64, t *T) {
			var p geo.Polygon
			switch i {
			case 1:
				p = geo.Polygon{{}}
			case 2:
				p = geo.Polygon{{{X: 1, Y: 1}}}
			case 3:
				p = geo.Polygon{{{X: 1, Y: 1}, {X: 2, Y: 1}, {X: 1, Y: 1}}}
			case 4:
				p = geo.Polygon{{{X: 1, Y: 1}, {X: 2, Y: 1}}}
			}
			t.Desc(func() string { return fmt.Sprint(p) })
			if p.Verify() == nil {
				t.Failf("verify", "Verify of %v found no error", p)
			}
			if p.SelfIntersect() {
				t.Failf("self", "SelfIntersect of %v", p)
			}
		})
		mixedP04(c)
	}})
}

// checkLinePoly: the relation of a line (or ring) to a polygon.
func checkLinePoly(t *T, p ipoly, l []ip, got geo.GeometryRealation, what string, x xf) {
	m := relNone
	out, in, cross := false, false, false
	for i := 0; i+1 < len(l); i++ {
		k := p.segMeets(l[i], l[i+1])
		m = max(m, k)
		wa, wb := p.where(l[i]), p.where(l[i+1])
		out = out || wa < 0 || wb < 0
		in = in || wa > 0 || wb > 0
		cross = cross || k == relCross || wa*wb < 0
	}
	fail := func(want string) {
		t.Failf("line-poly", "%s(%v, %v) = %s, want %s", what, x.line(l), x.poly(p), relName(got), want)
	}
	switch {
	case m == relNone && out:
		if got != geo.RELA_DISJOINT {
			fail("DISJOINT")
		}
	case m == relNone:
		if got != geo.RELA_CONTAIN {
			fail("CONTAIN")
		}
	case cross:
		if got != geo.RELA_INTERSECT {
			fail("INTERSECT: crosses the boundary")
		}
	default:
		if got != geo.RELA_TOUCH && got != geo.RELA_COVER && got != geo.RELA_INTERSECT {
			fail("TOUCH, COVER or INTERSECT: it meets the boundary")
		}
	}
	t.Out(relName(got))
}

func checkPolyPoly(t *T, a, b ipoly, x xf) {
	ga, gb := x.poly(a), x.poly(b)
	got := geo.PolyRelation(ga, gb)
	t.ops++
	if meets := a.meets(b); meets == (got == geo.RELA_DISJOINT) || got == geo.RELA_UNKNOWN {
		t.Failf("poly-poly", "PolyRelation(%v, %v) = %s, common points: %v (%s)", ga, gb, relName(got), meets, x.name)
	}
	cl := append(append([]ip{}, a[0]...), a[0][0])
	ringRel := geo.LinearPolyRelation(ga[0], gb)
	checkLinePoly(t, b, cl, ringRel, "LinearPolyRelation", x)
	if len(b) == 1 {
		inside, cross := true, false
		for i := 0; i+1 < len(cl); i++ {
			k := b.segMeets(cl[i], cl[i+1])
			inside = inside && k == relNone && b.where(cl[i]) > 0
			cross = cross || k == relCross
		}
		if inside != (got == geo.RELA_CONTAIN) {
			t.Failf("poly-contain", "PolyRelation(%v, %v) = %s, first in the interior of the second: %v", ga, gb, relName(got), inside)
		}
		if cross && got != geo.RELA_INTERSECT {
			t.Failf("poly-cross", "PolyRelation(%v, %v) = %s although edges cross", ga, gb, relName(got))
		}
	}
}
