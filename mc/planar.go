package main

// Exact planar reference geometry on integer coordinates, and the coordinate transforms under
// which every integer case is shown to the code.

import (
	"fmt"
	"math"
	"strings"

	geo "github.com/hzw456/go-geo"
)

type ip struct{ x, y int64 }

func orient(a, b, c ip) int64 { return (b.x-a.x)*(c.y-a.y) - (c.x-a.x)*(b.y-a.y) }

func sgn(v int64) int {
	if v > 0 {
		return 1
	}
	if v < 0 {
		return -1
	}
	return 0
}

func between(a, b, c int64) bool { return a <= c && c <= b || b <= c && c <= a }

func onSeg(a, b, p ip) bool {
	return orient(a, b, p) == 0 && between(a.x, b.x, p.x) && between(a.y, b.y, p.y)
}

const (
	relNone = iota
	relTouch
	relCross
)

// segRel: cross = the interiors meet in exactly one point and the segments are not collinear.
func segRel(a, b, c, d ip) int {
	o1, o2, o3, o4 := sgn(orient(a, b, c)), sgn(orient(a, b, d)), sgn(orient(c, d, a)), sgn(orient(c, d, b))
	if o1*o2 < 0 && o3*o4 < 0 {
		return relCross
	}
	if onSeg(a, b, c) || onSeg(a, b, d) || onSeg(c, d, a) || onSeg(c, d, b) {
		return relTouch
	}
	return relNone
}

type ring []ip // open: the last vertex is not repeated

func (r ring) edge(i int) (ip, ip) { return r[i], r[(i+1)%len(r)] }

func (r ring) simple() bool {
	n := len(r)
	if n < 3 {
		return false
	}
	for i := 0; i < n; i++ {
		a, b := r.edge(i)
		if a == b {
			return false
		}
		for j := i + 1; j < n; j++ {
			c, d := r.edge(j)
			switch {
			case j == i+1: // shares b = c
				if n == 3 && false {
					continue
				}
				if onSeg(a, b, d) || onSeg(c, d, a) {
					return false
				}
			case i == 0 && j == n-1: // shares a = d
				if onSeg(a, b, c) || onSeg(c, d, b) {
					return false
				}
			default:
				if segRel(a, b, c, d) != relNone {
					return false
				}
			}
		}
	}
	return true
}

// crosses: two edges cross at a point interior to both.
func (r ring) crosses() bool {
	for i := range r {
		a, b := r.edge(i)
		for j := i + 1; j < len(r); j++ {
			c, d := r.edge(j)
			if segRel(a, b, c, d) == relCross {
				return true
			}
		}
	}
	return false
}

func (r ring) area2() int64 {
	var s int64
	for i := range r {
		a, b := r.edge(i)
		s += a.x*b.y - b.x*a.y
	}
	return s
}

// where: -1 outside, 0 on the boundary, 1 inside.
func (r ring) where(p ip) int {
	in := false
	for i := range r {
		a, b := r.edge(i)
		if onSeg(a, b, p) {
			return 0
		}
		if (a.y > p.y) != (b.y > p.y) {
			o := orient(a, b, p)
			if b.y < a.y {
				o = -o
			}
			if o > 0 {
				in = !in
			}
		}
	}
	if in {
		return 1
	}
	return -1
}

type ipoly []ring // exterior, holes

func (p ipoly) where(q ip) int {
	w := p[0].where(q)
	if w <= 0 {
		return w
	}
	for _, h := range p[1:] {
		switch h.where(q) {
		case 0:
			return 0
		case 1:
			return -1
		}
	}
	return 1
}

func (p ipoly) area2() int64 {
	abs := func(v int64) int64 {
		if v < 0 {
			return -v
		}
		return v
	}
	s := abs(p[0].area2())
	for _, h := range p[1:] {
		s -= abs(h.area2())
	}
	return s
}

// segMeets: does segment ab have a point in common with a ring of p (2: proper crossing)
func (p ipoly) segMeets(a, b ip) int {
	res := relNone
	for _, r := range p {
		for i := range r {
			c, d := r.edge(i)
			if k := segRel(a, b, c, d); k > res {
				res = k
			}
		}
	}
	return res
}

func (p ipoly) meets(q ipoly) bool {
	for _, r := range p {
		for i := range r {
			a, b := r.edge(i)
			if q.segMeets(a, b) != relNone {
				return true
			}
		}
	}
	return q.where(p[0][0]) >= 0 || p.where(q[0][0]) >= 0
}

func (r ring) String() string {
	var s []string
	for _, p := range r {
		s = append(s, fmt.Sprintf("(%d,%d)", p.x, p.y))
	}
	return strings.Join(s, " ")
}

func (r ring) reversed() ring {
	o := make(ring, len(r))
	for i := range r {
		o[len(r)-1-i] = r[i]
	}
	return o
}

func (r ring) rotated(k int) ring {
	return append(append(ring{}, r[k:]...), r[:k]...)
}

func (r ring) shifted(dx, dy int64) ring {
	o := make(ring, len(r))
	for i, p := range r {
		o[i] = ip{p.x + dx, p.y + dy}
	}
	return o
}

func (p ipoly) shifted(dx, dy int64) ipoly {
	var o ipoly
	for _, r := range p {
		o = append(o, r.shifted(dx, dy))
	}
	return o
}

func (p ipoly) scaled(k int64) ipoly {
	var o ipoly
	for _, r := range p {
		var q ring
		for _, v := range r {
			q = append(q, ip{v.x * k, v.y * k})
		}
		o = append(o, q)
	}
	return o
}

// ------------------------------------------------------------------ transforms

// xf maps integer cases to float coordinates; all of them are exact in float64 for the grids
// used here, and so are the products the predicates need.
type xf struct {
	name   string
	sx, sy float64
	ox, oy float64
}

func (t xf) p(a ip) geo.Point {
	return geo.Point{X: float64(a.x)*t.sx + t.ox, Y: float64(a.y)*t.sy + t.oy}
}

func (t xf) ring(r ring) geo.LinearRing {
	o := make(geo.LinearRing, 0, len(r)+1)
	for _, a := range r {
		o = append(o, t.p(a))
	}
	return append(o, o[0])
}

func (t xf) poly(p ipoly) geo.Polygon {
	var o geo.Polygon
	for _, r := range p {
		o = append(o, t.ring(r))
	}
	return o
}

func (t xf) line(r []ip) geo.LineString {
	o := make(geo.LineString, 0, len(r))
	for _, a := range r {
		o = append(o, t.p(a))
	}
	return o
}

// unit length of the transform
func (t xf) unit() float64 { return math.Abs(t.sx) }

var xfs = []xf{
	{"identity", 1, 1, 0, 0},
	{"centred", 1, 1, -3, -2},
	{"lon-lat", 1.0 / 1024, 1.0 / 1024, 113.25, 23.5},
	{"south-west", 1.0 / 512, 1.0 / 512, -71.5, -33.25},
	{"metres", 16, 16, 500000, 4500000},
	{"large", 65536, 65536, -20000000, 30000000},
	{"half", 0.5, 0.5, 0.25, -0.75},
	{"gigantic", 1 << 30, 1 << 30, -3 << 30, 2 << 30},
}

var xfMirror = xf{"mirrored", -1, 1, 0, 0}

// xfsFine adds units far below the library's resolution of 1e-6 (exact all the same), for the
// operations that promise their result however small the geometry is.
var xfsFine = append(append([]xf{}, xfs...),
	xf{"microscopic", 1.0 / (1 << 30), 1.0 / (1 << 30), -3.0 / (1 << 30), 2.0 / (1 << 30)},
	xf{"fine", 1.0 / (1 << 22), 1.0 / (1 << 22), 0.5, -0.25},
	xf{"nano", 1.0 / (1 << 40), 1.0 / (1 << 40), 0, 0})

// gridPts: g x g integer points times step
func gridPts(x0, y0, x1, y1, step int64) []ip {
	var r []ip
	for y := y0; y <= y1; y += step {
		for x := x0; x <= x1; x += step {
			r = append(r, ip{x, y})
		}
	}
	return r
}

// ------------------------------------------------------------------ shape catalogue (even coordinates)

var shapes = []struct {
	name string
	p    ipoly
}{
	{"triangle", ipoly{{{0, 0}, {8, 0}, {2, 6}}}},
	{"thin triangle", ipoly{{{0, 0}, {10, 2}, {10, 4}}}},
	{"square", ipoly{{{0, 0}, {8, 0}, {8, 8}, {0, 8}}}},
	{"square clockwise", ipoly{{{2, 2}, {2, 6}, {6, 6}, {6, 2}}}},
	{"square with mid-edge vertices", ipoly{{{0, 0}, {4, 0}, {8, 0}, {8, 4}, {8, 8}, {4, 8}, {0, 8}, {0, 4}}}},
	{"diamond", ipoly{{{4, 0}, {8, 4}, {4, 8}, {0, 4}}}},
	{"L", ipoly{{{0, 0}, {8, 0}, {8, 4}, {4, 4}, {4, 8}, {0, 8}}}},
	{"U", ipoly{{{0, 0}, {10, 0}, {10, 8}, {8, 8}, {8, 2}, {2, 2}, {2, 8}, {0, 8}}}},
	{"arrow", ipoly{{{0, 0}, {8, 4}, {0, 8}, {4, 4}}}},
	{"zigzag", ipoly{{{0, 0}, {2, 4}, {4, 0}, {6, 4}, {8, 0}, {8, 8}, {0, 8}}}},
	{"comb", ipoly{{{0, 0}, {10, 0}, {10, 2}, {2, 2}, {2, 4}, {10, 4}, {10, 6}, {2, 6}, {2, 8}, {10, 8}, {10, 10}, {0, 10}}}},
	{"spiral", ipoly{{{0, 0}, {10, 0}, {10, 10}, {2, 10}, {2, 4}, {6, 4}, {6, 6}, {4, 6}, {4, 8}, {8, 8}, {8, 2}, {0, 2}}}},
	{"square with hole", ipoly{{{0, 0}, {10, 0}, {10, 10}, {0, 10}}, {{2, 2}, {2, 6}, {6, 6}, {6, 2}}}},
	{"square with counter-clockwise diamond hole", ipoly{{{0, 0}, {10, 0}, {10, 10}, {0, 10}}, {{4, 2}, {6, 4}, {4, 6}, {2, 4}}}},
	{"triangle with triangle hole", ipoly{{{0, 0}, {12, 0}, {0, 12}}, {{2, 2}, {2, 6}, {6, 2}}}},
	{"two holes", ipoly{{{0, 0}, {12, 0}, {12, 8}, {0, 8}}, {{2, 2}, {4, 2}, {4, 6}, {2, 6}}, {{6, 2}, {6, 6}, {10, 4}}}},
}

// regular families with n vertices (integer coordinates, simple)
func familyRing(kind, n int) ring {
	var r ring
	switch kind {
	case 0: // staircase
		k := n / 2
		for i := 0; i < k; i++ {
			r = append(r, ip{int64(2 * i), int64(2 * i)}, ip{int64(2*i + 2), int64(2 * i)})
		}
		r = append(r, ip{int64(2 * k), int64(2 * k)}, ip{0, int64(2 * k)})
	case 1: // comb
		k := n / 4
		for i := 0; i < k; i++ {
			x := int64(6 * i)
			r = append(r, ip{x, 0}, ip{x + 2, 0}, ip{x + 2, 10}, ip{x + 6, 10})
		}
		r = append(r, ip{int64(6 * k), 12}, ip{0, 12})
	case 2: // convex: points of a parabola
		for i := 0; i < n; i++ {
			r = append(r, ip{int64(2 * i), int64(2 * i * (i - n + 1))})
		}
		// flat top
	case 3: // saw
		for i := 0; i < n; i++ {
			r = append(r, ip{int64(4 * i), int64(i%2) * 6})
		}
		r = append(r, ip{int64(4 * n), 20}, ip{-4, 20})
	case 4: // subdivided rectangle
		k := int64(n/4 + 1)
		for i := int64(0); i < k; i++ {
			r = append(r, ip{2 * i, 0})
		}
		for i := int64(0); i < k; i++ {
			r = append(r, ip{2 * k, 2 * i})
		}
		for i := k; i > 0; i-- {
			r = append(r, ip{2 * i, 2 * k})
		}
		for i := k; i > 0; i-- {
			r = append(r, ip{0, 2 * i})
		}
	}
	return r
}

const nFamilies = 5
