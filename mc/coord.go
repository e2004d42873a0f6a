package main

// Coordinate systems and grids: UTM (E01), GCJ-02/BD-09 (E02), geohash (E03), S2 (E04, E05).

import (
	"fmt"
	"math"
	"strings"

	geo "github.com/hzw456/go-geo"
)

const dg = math.Pi / 180

// ------------------------------------------------------------------ UTM reference (Krueger series to the sixth order)

type kr struct {
	a, n, A float64
	al, be  [7]float64
	e       float64
}

var krg = func() kr {
	f := 1 / 298.257223563
	n := f / (2 - f)
	p := func(k int) float64 { return math.Pow(n, float64(k)) }
	k := kr{a: 6378137, n: n, e: math.Sqrt(f * (2 - f))}
	k.A = k.a / (1 + n) * (1 + p(2)/4 + p(4)/64 + p(6)/256)
	k.al = [7]float64{0,
		n/2 - 2*p(2)/3 + 5*p(3)/16 + 41*p(4)/180 - 127*p(5)/288 + 7891*p(6)/37800,
		13*p(2)/48 - 3*p(3)/5 + 557*p(4)/1440 + 281*p(5)/630 - 1983433*p(6)/1935360,
		61*p(3)/240 - 103*p(4)/140 + 15061*p(5)/26880 + 167603*p(6)/181440,
		49561*p(4)/161280 - 179*p(5)/168 + 6601661*p(6)/7257600,
		34729*p(5)/80640 - 3418889*p(6)/1995840,
		212378941 * p(6) / 319334400}
	return k
}()

// utmRef: easting and northing (negative on the southern hemisphere) for the central meridian lon0.
func utmRef(lat, lon, lon0 float64) (E, N float64) {
	k := krg
	phi, l := lat*dg, (lon-lon0)*dg
	t := math.Sinh(math.Atanh(math.Sin(phi)) - k.e*math.Atanh(k.e*math.Sin(phi)))
	xi, eta := math.Atan2(t, math.Cos(l)), math.Asinh(math.Sin(l)/math.Hypot(t, math.Cos(l)))
	X, Y := xi, eta
	for j := 1; j <= 6; j++ {
		w := 2 * float64(j)
		X += k.al[j] * math.Sin(w*xi) * math.Cosh(w*eta)
		Y += k.al[j] * math.Cos(w*xi) * math.Sinh(w*eta)
	}
	return 500000 + 0.9996*k.A*Y, 0.9996 * k.A * X
}

func utmZoneRef(lat, lon float64) int {
	between := func(v, lo, hi float64) bool { return v >= lo && v < hi }
	if between(lat, 56, 64) && between(lon, 3, 12) {
		return 32
	}
	if lat >= 72 && lat <= 84 && between(lon, 0, 42) {
		for _, z := range []struct {
			lo, hi float64
			zone   int
		}{{0, 9, 31}, {9, 21, 33}, {21, 33, 35}, {33, 42, 37}} {
			if between(lon, z.lo, z.hi) {
				return z.zone
			}
		}
	}
	for z := 1; z <= 60; z++ {
		if between(lon, float64(z-1)*6-180, float64(z)*6-180) {
			return z
		}
	}
	return 60 // longitude 180
}

func utmLetterRef(lat float64) string {
	s := "CDEFGHJKLMNPQRSTUVWX"
	k := 0
	for k < 19 && lat >= float64(8*(k+1)-80) {
		k++
	}
	return s[k : k+1]
}

func utmTol(lon, lon0 float64) float64 {
	if math.Abs(lon-lon0) < 3.001 {
		return 2e-3
	}
	return 0.1
}

// ------------------------------------------------------------------ GCJ-02, BD-09 reference

func gcjDelta(lon, lat float64) (dlon, dlat float64) {
	x, y := lon-105, lat-35
	s := func(v float64) float64 { return math.Sin(v * math.Pi) }
	common := 20*s(6*x) + 20*s(2*x)
	la := -100 + 2*x + 3*y + 0.2*y*y + 0.1*x*y + 0.2*math.Sqrt(math.Abs(x)) +
		2.0/3*(common+20*s(y)+40*s(y/3)+160*s(y/12)+320*s(y/30))
	lo := 300 + x + 2*y + 0.1*x*x + 0.1*x*y + 0.1*math.Sqrt(math.Abs(x)) +
		2.0/3*(common+20*s(x)+40*s(x/3)+150*s(x/12)+300*s(x/30))
	const a, ee = 6378245.0, 0.00669342162296594323
	w := 1 - ee*math.Pow(math.Sin(lat*dg), 2)
	meridian := a * (1 - ee) / math.Pow(w, 1.5)
	parallel := a / math.Sqrt(w) * math.Cos(lat*dg)
	return lo / parallel / dg, la / meridian / dg
}

func inChina(lon, lat float64) bool { return lon > 73.66 && lon < 135.05 && lat > 3.86 && lat < 53.55 }

func bdFromGcj(lon, lat float64) (float64, float64) {
	const k = math.Pi * 3000 / 180
	z := math.Hypot(lon, lat) + 0.00002*math.Sin(lat*k)
	th := math.Atan2(lat, lon) + 0.000003*math.Cos(lon*k)
	return z*math.Cos(th) + 0.0065, z*math.Sin(th) + 0.006
}

func gcjFromBd(lon, lat float64) (float64, float64) {
	const k = math.Pi * 3000 / 180
	x, y := lon-0.0065, lat-0.006
	z := math.Hypot(x, y) - 0.00002*math.Sin(y*k)
	th := math.Atan2(y, x) - 0.000003*math.Cos(x*k)
	return z * math.Cos(th), z * math.Sin(th)
}

// ------------------------------------------------------------------ geohash reference

const gh32 = "0123456789bcdefghjkmnpqrstuvwxyz"

// ghCell: column, row and the number of columns and rows of the cells of a precision.
func ghDims(prec int) (cols, rows int64) {
	b := 5 * prec
	return 1 << uint((b+1)/2), 1 << uint(b/2)
}

func ghStr(col, row int64, prec int) string {
	b := 5 * prec
	lb, tb := (b+1)/2, b/2
	var bits []int
	for k := 0; k < b; k++ {
		if k%2 == 0 {
			lb--
			bits = append(bits, int(col>>uint(lb)&1))
		} else {
			tb--
			bits = append(bits, int(row>>uint(tb)&1))
		}
	}
	var s strings.Builder
	for k := 0; k < b; k += 5 {
		v := 0
		for j := 0; j < 5; j++ {
			v = 2*v + bits[k+j]
		}
		s.WriteByte(gh32[v])
	}
	return s.String()
}

func ghParse(h string) (col, row int64) {
	k := 0
	for _, c := range h {
		v := strings.IndexRune(gh32, c)
		for j := 4; j >= 0; j-- {
			if k%2 == 0 {
				col = 2*col + int64(v>>uint(j)&1)
			} else {
				row = 2*row + int64(v>>uint(j)&1)
			}
			k++
		}
	}
	return
}

// ------------------------------------------------------------------ S2 reference

type c3 [3]float64

func (a c3) add(b c3) c3      { return c3{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func (a c3) mul(k float64) c3 { return c3{a[0] * k, a[1] * k, a[2] * k} }
func (a c3) dot(b c3) float64 { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func (a c3) cross(b c3) c3 {
	return c3{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}
func (a c3) norm() c3          { return a.mul(1 / math.Sqrt(a.dot(a))) }
func (a c3) dist(b c3) float64 { d := a.add(b.mul(-1)); return math.Sqrt(d.dot(d)) }
func ll3(lat, lon float64) c3 {
	return c3{math.Cos(lat*dg) * math.Cos(lon*dg), math.Cos(lat*dg) * math.Sin(lon*dg), math.Sin(lat * dg)}
}
func toLL(a c3) (float64, float64) {
	return math.Atan2(a[2], math.Hypot(a[0], a[1])) / dg, math.Atan2(a[1], a[0]) / dg
}

func s2FaceUV(p c3) (face int, u, v float64) {
	ax := 0
	for k := 1; k < 3; k++ {
		if math.Abs(p[k]) > math.Abs(p[ax]) {
			ax = k
		}
	}
	face = ax
	if p[ax] < 0 {
		face += 3
	}
	x, y, z := p[0], p[1], p[2]
	switch face {
	case 0:
		return 0, y / x, z / x
	case 1:
		return 1, -x / y, z / y
	case 2:
		return 2, -x / z, -y / z
	case 3:
		return 3, z / x, y / x
	case 4:
		return 4, z / y, -x / y
	}
	return 5, -y / z, -x / z
}

func s2XYZ(face int, u, v float64) c3 {
	switch face {
	case 0:
		return c3{1, u, v}.norm()
	case 1:
		return c3{-u, 1, v}.norm()
	case 2:
		return c3{-u, -v, 1}.norm()
	case 3:
		return c3{-1, -v, -u}.norm()
	case 4:
		return c3{v, -1, -u}.norm()
	}
	return c3{v, u, -1}.norm()
}

func uvToST(u float64) float64 {
	if u >= 0 {
		return 0.5 * math.Sqrt(1+3*u)
	}
	return 1 - 0.5*math.Sqrt(1-3*u)
}

func stToUV(s float64) float64 {
	if s >= 0.5 {
		return (4*s*s - 1) / 3
	}
	return (1 - 4*(1-s)*(1-s)) / 3
}

type s2cell struct {
	face, level int
	i, j        int64 // column and row among 2^level
}

func s2At(p c3, level int) s2cell {
	f, u, v := s2FaceUV(p)
	n := float64(int64(1) << uint(level))
	cl := func(x float64) int64 { return int64(math.Max(0, math.Min(n-1, math.Floor(x*n)))) }
	return s2cell{f, level, cl(uvToST(u)), cl(uvToST(v))}
}

// hilbert quadrant order: for each of the four orientations the (i,j) bits of the four positions
func (c s2cell) id() uint64 {
	// orientation: bit 0: i and j swapped, bit 1: both inverted
	o := c.face & 1
	var pos uint64
	for k := c.level - 1; k >= 0; k-- {
		a, b := int(c.i>>uint(k)&1), int(c.j>>uint(k)&1)
		if o&2 != 0 {
			a, b = 1-a, 1-b
		}
		if o&1 != 0 {
			a, b = b, a
		}
		// canonical order of (i,j): 00 01 11 10
		q := 3 * a
		if a == 0 {
			q = b
		} else {
			q = 3 - b
		}
		pos = pos<<2 | uint64(q)
		switch q {
		case 0:
			o ^= 1
		case 3:
			o ^= 3
		}
	}
	s := uint(2 * (30 - c.level))
	return uint64(c.face)<<61 | (pos*2+1)<<s
}

func (c s2cell) at(fi, fj float64) c3 {
	n := float64(int64(1) << uint(c.level))
	return s2XYZ(c.face, stToUV((float64(c.i)+fi)/n), stToUV((float64(c.j)+fj)/n))
}

// corners in counterclockwise order
func (c s2cell) corners() [4]c3 { return [4]c3{c.at(0, 0), c.at(1, 0), c.at(1, 1), c.at(0, 1)} }

// neighbours returns the cells of the same level that touch c, found by probing around its boundary.
func (c s2cell) neighbours() map[uint64]s2cell {
	r := map[uint64]s2cell{}
	self := c.id()
	cs := c.corners()
	size := cs[0].dist(cs[2])
	eps := size * 1e-3
	probe := func(p c3) {
		n := s2At(p, c.level)
		if id := n.id(); id != self {
			r[id] = n
		}
	}
	for k := 0; k < 4; k++ {
		p, q := cs[k], cs[(k+1)%4]
		m := p.add(q).norm()
		out := q.add(p.mul(-1)).cross(m).norm() // to the right of a counterclockwise edge: outside
		probe(m.add(out.mul(eps)).norm())
		e1 := q.add(p.mul(-1)).norm()
		e2 := p.cross(e1).norm()
		for a := 0; a < 24; a++ {
			w := float64(a)*math.Pi/12 + 0.1
			probe(p.add(e1.mul(eps * math.Cos(w))).add(e2.mul(eps * math.Sin(w))).norm())
		}
	}
	return r
}

// s2Grid lists points for the S2 and grid checks: a lon-lat grid with points near face borders, poles and the antimeridian.
func lonlatGrid(step float64) (r []geo.Point) {
	for lat := -90.0; lat <= 90; lat += step {
		for lon := -180.0; lon <= 180; lon += step {
			r = append(r, geo.Point{X: lon, Y: lat})
		}
	}
	return
}

func sameDir(p geo.Point, v c3) bool { return ll3(p.Y, p.X).dist(v) < 1e-14*4+1e-15 }

// s2Close: same direction to 2e-13 radians, latitude and longitude in range
func s2Close(p geo.Point, v c3) bool {
	return ll3(p.Y, p.X).dist(v) < 2e-13 && math.Abs(p.X) <= 180 && math.Abs(p.Y) <= 90
}

// ------------------------------------------------------------------ planar test for coverings

type v2 struct{ x, y float64 }

func gnomonic(c, e1, e2, p c3) v2 { d := p.dot(c); return v2{p.dot(e1) / d, p.dot(e2) / d} }

func orient2(a, b, c v2) float64 { return (b.x-a.x)*(c.y-a.y) - (b.y-a.y)*(c.x-a.x) }

func inRing2(p v2, r []v2) bool {
	in := false
	for k := range r {
		a, b := r[k], r[(k+1)%len(r)]
		if (a.y > p.y) != (b.y > p.y) && p.x < a.x+(p.y-a.y)/(b.y-a.y)*(b.x-a.x) {
			in = !in
		}
	}
	return in
}

func segDist2(p, a, b v2) float64 {
	dx, dy := b.x-a.x, b.y-a.y
	t := ((p.x-a.x)*dx + (p.y-a.y)*dy) / (dx*dx + dy*dy)
	t = math.Max(0, math.Min(1, t))
	return math.Hypot(p.x-a.x-t*dx, p.y-a.y-t*dy)
}

// ringsMeet: whether the regions of two rings meet, and how far from the limit between meeting
// and not meeting the vertices are (clearance).
func ringsMeet(a, b []v2) (meet bool, clear float64) {
	clear = math.Inf(1)
	for k := range a {
		for l := range b {
			p, q, r, s := a[k], a[(k+1)%len(a)], b[l], b[(l+1)%len(b)]
			if orient2(p, q, r)*orient2(p, q, s) < 0 && orient2(r, s, p)*orient2(r, s, q) < 0 {
				meet = true
			}
			clear = math.Min(clear, math.Min(math.Min(segDist2(p, r, s), segDist2(q, r, s)), math.Min(segDist2(r, p, q), segDist2(s, p, q))))
		}
	}
	if inRing2(a[0], b) || inRing2(b[0], a) {
		meet = true
	}
	return
}

func init() {
	// ------------------------------------------------------------ E01
	register(&Prop{ID: "E01", Rule: "every point of a lon-lat grid with the limits of all zones and bands, approached from both sides, and every point of an easting-northing grid in every zone, compared with the Krueger series to the sixth order and a table of zones and bands",
		Assum: []string{"WGS84; coordinates compared to 2 mm within 3 degrees of the central meridian and to 0.1 m in the widened zones (truncation of the series)", "inverse: points of latitude -80 to 84 within the zone"}, Run: func(c *Ctx) {
			near := func(base []float64) (r []float64) {
				for _, b := range base {
					r = append(r, b-1e-9, b, b+1e-9)
				}
				return
			}
			var lats, lons []float64
			for a := -80.0; a <= 84; a += Pick(c, 0.5, 0.125, 0.0625) {
				lats = append(lats, a)
			}
			for a := -180.0; a <= 180; a += Pick(c, 0.5, 0.125, 0.0625) {
				lons = append(lons, a)
			}
			var bl, bo []float64
			for a := -80.0; a <= 80; a += 8 {
				bl = append(bl, a)
			}
			for a := -180.0; a <= 180; a += 3 {
				bo = append(bo, a)
			}
			lats = append(lats, near(append(bl, 56, 64, 72, 84))...)
			lats = append(lats, 0, math.Copysign(0, -1), 1e-300, -1e-300)
			lons = append(lons, near(bo)...)
			ok := func(lat, lon float64) bool { return lat >= -80 && lat <= 84 && lon >= -180 && lon <= 180 }
			n := int64(len(lats))
			c.Enum("from latitude and longitude", n*int64(len(lons)), func(i int64, t *T) {
				lat, lon := lats[i%n], lons[i/n]
				t.Desc(func() string { return fmt.Sprintf("latitude %v longitude %v", lat, lon) })
				E, N, z, L, err := geo.FromLatLon(lat, lon, false)
				t.ops += 4
				if (geo.ValidateLatLone(lat, lon) == nil) != ok(lat, lon) || (err == nil) != ok(lat, lon) {
					t.Failf("range", "FromLatLon(%v, %v): error %v", lat, lon, err)
				}
				if err != nil {
					return
				}
				wz, wl := utmZoneRef(lat, lon), utmLetterRef(lat)
				if z != wz || L != wl {
					t.Failf("zone", "FromLatLon(%v, %v) is in zone %d%s, want %d%s", lat, lon, z, L, wz, wl)
				}
				lon0 := float64(wz*6 - 183)
				we, wn := utmRef(lat, lon, lon0)
				if lat < 0 {
					wn += 1e7
				}
				tol := utmTol(lon, lon0)
				if !nearF(E, we, tol) || !nearF(N, wn, tol) {
					t.Failf("forward", "FromLatLon(%v, %v) = %v, %v in zone %d, want %v, %v", lat, lon, E, N, z, we, wn)
				}
				E2, N2, z2, L2, err2 := geo.FromLatLon(lat, lon, true)
				wl2 := "N"
				if lat < 0 {
					wl2 = "S"
				}
				if E2 != E || N2 != N || z2 != z || L2 != wl2 || err2 != nil {
					t.Failf("northern", "FromLatLon(%v, %v, true) = %v %v %v %v %v; want %s, the rest as without: %v %v %v", lat, lon, E2, N2, z2, L2, err2, wl2, E, N, z)
				}
				la, lo, err := geo.ToLatLon(E, N, z, L)
				t.ops++
				if err != nil {
					if N > 1e7 || N < 0 { // rounding at the equator
						return
					}
					t.Failf("round-trip", "ToLatLon(%v, %v, %d, %s): %v", E, N, z, L, err)
				}
				if !nearF(la, lat, 2*tol/1e5) || !nearF(lo, lon, 2*tol/1e5/math.Cos(lat*dg)) {
					t.Failf("round-trip", "ToLatLon(FromLatLon(%v, %v)) = %v, %v", lat, lon, la, lo)
				}
				t.Trace()
			})
			// inverse
			es, ns := Pick(c, 25, 61, 121), Pick(c, 90, 400, 900)
			letters := "CDEFGHJKLMNPQRSTUVWXcdefghjklmnpqrstuvwx"
			c.Enum("to latitude and longitude", int64(60*es*ns*3), func(i int64, t *T) {
				d := Radix(i, []int{3, 60, es, ns}, nil)
				z := d[1] + 1
				E := 500000 + 333000*(2*float64(d[2])/float64(es-1)-1)
				N := 9320000 * float64(d[3]) / float64(ns-1)
				south := d[3]%2 == 1
				var la, lo float64
				var err error
				how := ""
				if south {
					N = 10000000 - N*8880000/9320000
				}
				switch d[0] {
				case 0:
					how = fmt.Sprint("northern=", !south)
					la, lo, err = geo.ToLatLon(E, N, z, "", !south)
				default:
					var L string
					k := int(i) % 10
					if !south {
						k += 10
					}
					if d[0] == 2 {
						k += 20
					}
					L = letters[k : k+1]
					how = L
					la, lo, err = geo.ToLatLon(E, N, z, L)
				}
				t.ops++
				t.Desc(func() string { return fmt.Sprintf("easting %v northing %v zone %d %s", E, N, z, how) })
				if err != nil {
					t.Failf("error", "ToLatLon(%v, %v, %d, %s): %v", E, N, z, how, err)
				}
				lon0 := float64(z*6 - 183)
				if math.Abs(lo-lon0) > 6.1 && la <= 84 && la >= -80 && math.Abs(E-500000) < 300000*math.Cos(la*dg) {
					t.Failf("inverse", "ToLatLon(%v, %v, %d, %s) = %v, %v", E, N, z, how, la, lo)
				}
				if math.Abs(lo-lon0) > 6.1 || la > 84 || la < -80 {
					// outside what a zone holds; the northing alone must still put it far north or south
					if math.Abs(E-500000) < 1 && la < 84.01 && la > -80.01 {
						t.Failf("inverse", "ToLatLon(%v, %v, %d, %s) = %v, %v", E, N, z, how, la, lo)
					}
					return
				}
				if la == 0 || (la > 0) != !south && math.Abs(N-1e7) > 1 && N > 1 {
					if N > 1 && N < 9999999 {
						t.Failf("hemisphere", "ToLatLon(%v, %v, %d, %s) = %v, %v", E, N, z, how, la, lo)
					}
				}
				e, n := utmRef(la, lo, lon0)
				if south {
					n += 1e7
				}
				tol := utmTol(lo, lon0)
				if math.Abs(lo-lon0) > 3.001 {
					tol = 0.2
				}
				if !nearF(e, E, tol) || !nearF(n, N, tol) {
					t.Failf("inverse", "ToLatLon(%v, %v, %d, %s) = %v, %v, which is at %v, %v", E, N, z, how, la, lo, e, n)
				}
				t.Trace()
			})
			// arguments outside the domain
			eb := []float64{99999.999, 100000, 999999.999, 1000000, math.NaN(), -500000, math.Inf(1)}
			nb := []float64{-0.001, 0, 10000000, 10000000.001, math.NaN(), math.Inf(1)}
			zb := []int{-1, 0, 1, 60, 61}
			lb := []string{"", "A", "B", "C", "I", "i", "N", "O", "o", "X", "Y", "Z", "z", "4", "é", "c", "x", "@", "["}
			rad := []int{len(eb), len(nb), len(zb), len(lb), 3}
			c.Enum("arguments at and beyond the limits", Product(rad), func(i int64, t *T) {
				d := Radix(i, rad, nil)
				E, N, z, L := eb[d[0]], nb[d[1]], zb[d[2]], lb[d[3]]
				var opt []bool
				if d[4] > 0 {
					opt = []bool{d[4] == 1}
				}
				t.Desc(func() string { return fmt.Sprintf("ToLatLon(%v, %v, %d, %q, %v)", E, N, z, L, opt) })
				valid := E >= 100000 && E < 1000000 && N >= 0 && N <= 1e7 && z >= 1 && z <= 60 && (L == "") != (len(opt) == 0)
				if L != "" && !strings.Contains(letters, L[:1]) {
					valid = false
				}
				_, _, err := geo.ToLatLon(E, N, z, L, opt...)
				t.ops++
				if (err == nil) != valid {
					t.Failf("domain", "ToLatLon(%v, %v, %d, %q, %v): error %v", E, N, z, L, opt, err)
				}
				t.Trace()
			})
			bad := []float64{math.NaN(), math.Inf(1), math.Inf(-1), -80.0000001, 84.0000001, 180.0000001, -180.0000001, 0, 45, -80, 84, 180, -180}
			nb2 := int64(len(bad))
			c.Enum("points outside the domain", nb2*nb2*2, func(i int64, t *T) {
				lat, lon := bad[i%nb2], bad[i/nb2%nb2]
				t.Desc(func() string { return fmt.Sprintf("latitude %v longitude %v", lat, lon) })
				_, _, _, _, err := geo.FromLatLon(lat, lon, i/nb2/nb2 == 1)
				t.ops += 2
				if (err == nil) != ok(lat, lon) || (geo.ValidateLatLone(lat, lon) == nil) != ok(lat, lon) {
					t.Failf("range", "FromLatLon(%v, %v): error %v", lat, lon, err)
				}
				t.Trace()
			})
		}})

	// ------------------------------------------------------------ E02
	register(&Prop{ID: "E02", Rule: "every point of a lon-lat grid over and around the region, its limits approached from both sides, compared with an independent formulation of the published transforms",
		Assum: []string{"the published GCJ-02 and BD-09 formulas are the meaning of the transforms"}, Run: func(c *Ctx) {
			var lons, lats []float64
			for a := -180.0; a <= 180; a += Pick(c, 1.25, 0.5, 0.25) {
				lons = append(lons, a)
			}
			for a := -90.0; a <= 90; a += Pick(c, 1.25, 0.5, 0.25) {
				lats = append(lats, a)
			}
			for a := 73.0; a <= 136; a += Pick(c, 0.17, 0.031, 0.011) {
				lons = append(lons, a)
			}
			for a := 3.5; a <= 54; a += Pick(c, 0.13, 0.027, 0.0093) {
				lats = append(lats, a)
			}
			for _, b := range []float64{73.66, 135.05, 105} {
				lons = append(lons, b-1e-9, b, b+1e-9, b-0.02, b+0.02)
			}
			for _, b := range []float64{3.86, 53.55, 35} {
				lats = append(lats, b-1e-9, b, b+1e-9, b-0.02, b+0.02)
			}
			n := int64(len(lons))
			c.Enum("points", n*int64(len(lats)), func(i int64, t *T) {
				lon, lat := lons[i%n], lats[i/n]
				t.Desc(func() string { return fmt.Sprintf("lon %v lat %v", lon, lat) })
				ck := func(what string, glon, glat, wlon, wlat, tol float64) {
					t.ops++
					if !nearF(glon, wlon, tol) || !nearF(glat, wlat, tol) {
						t.Failf(what, "%s(%v, %v) = %v, %v, want %v, %v", what, lon, lat, glon, glat, wlon, wlat)
					}
				}
				a, b := geo.WGS84toGCJ02(lon, lat)
				p, q := geo.GCJ02toWGS84(lon, lat)
				wa, wb, wp, wq := lon, lat, lon, lat
				if inChina(lon, lat) {
					dx, dy := gcjDelta(lon, lat)
					wa, wb, wp, wq = lon+dx, lat+dy, lon-dx, lat-dy
					ck("WGS84toGCJ02", a, b, wa, wb, 1e-10)
					ck("GCJ02toWGS84", p, q, wp, wq, 1e-10)
				} else if a != lon || b != lat || p != lon || q != lat {
					t.Failf("outside", "outside the region %v, %v becomes %v, %v and %v, %v", lon, lat, a, b, p, q)
				}
				ba, bb := geo.GCJ02toBD09(lon, lat)
				va, vb := bdFromGcj(lon, lat)
				ck("GCJ02toBD09", ba, bb, va, vb, 1e-10)
				ga, gb := geo.BD09toGCJ02(lon, lat)
				va, vb = gcjFromBd(lon, lat)
				ck("BD09toGCJ02", ga, gb, va, vb, 1e-10)
				// compositions
				x, y := geo.WGS84toBD09(lon, lat)
				va, vb = bdFromGcj(wa, wb)
				ck("WGS84toBD09", x, y, va, vb, 1e-10)
				x, y = geo.BD09toWGS84(lon, lat)
				va, vb = gcjFromBd(lon, lat)
				if inChina(va, vb) == inChina(va+1e-9, vb+1e-9) && inChina(va, vb) == inChina(va-1e-9, vb-1e-9) {
					if inChina(va, vb) {
						dx, dy := gcjDelta(va, vb)
						va, vb = va-dx, vb-dy
					}
					ck("BD09toWGS84", x, y, va, vb, 1e-10)
				}
				// there and back inside the region
				if lon > 73.7 && lon < 135 && lat > 3.9 && lat < 53.5 {
					x, y = geo.GCJ02toWGS84(a, b)
					ck("WGS84-GCJ02-WGS84", x, y, lon, lat, 1e-4)
					x, y = geo.BD09toGCJ02(ba, bb)
					ck("GCJ02-BD09-GCJ02", x, y, lon, lat, 5e-6)
					x, y = geo.WGS84toBD09(lon, lat)
					x, y = geo.BD09toWGS84(x, y)
					ck("WGS84-BD09-WGS84", x, y, lon, lat, 1e-4)
				}
				t.Trace()
			})
		}})

	// ------------------------------------------------------------ E03
	register(&Prop{ID: "E03", Rule: "every geohash of up to a bounded length and families of longer ones, and every point of a grid at every precision, compared with an integer grid reference",
		Assum: []string{"longitudes in [-180,180), latitudes in [-90,90); lower-case hashes of 1 to 12 characters; neighbours beyond a pole are not compared"}, Run: func(c *Ctx) {
			check := func(t *T, h string, srid geo.SRID) {
				col, row := ghParse(h)
				cols, rows := ghDims(len(h))
				w, hgt := 360/float64(cols), 180/float64(rows)
				want := geo.Box{MinX: float64(col)*w - 180, MinY: float64(row)*hgt - 90, MaxX: float64(col+1)*w - 180, MaxY: float64(row+1)*hgt - 90}
				b := geo.GeohashGetBoundary(h, srid)
				t.ops += 4
				if !nearF(b.MinX, want.MinX, 1e-12) || !nearF(b.MinY, want.MinY, 1e-12) || !nearF(b.MaxX, want.MaxX, 1e-12) || !nearF(b.MaxY, want.MaxY, 1e-12) {
					t.Failf("boundary", "GeohashGetBoundary(%s) = %v, want %v", h, b, want)
				}
				ctr := geo.GeohashGetCenter(h, srid)
				wc := geo.Point{X: (want.MinX + want.MaxX) / 2, Y: (want.MinY + want.MaxY) / 2}
				if !nearPt(ctr, wc, 1e-12) {
					t.Failf("center", "GeohashGetCenter(%s) = %v, want %v", h, ctr, wc)
				}
				if g := geo.GeohashEncode(wc, uint(len(h)), srid); g != h {
					t.Failf("encode", "GeohashEncode(%v, %d) = %s, want %s", wc, len(h), g, h)
				}
				nb := geo.GeohashGetAllNeighbors(h, srid)
				if len(nb) != 8 {
					t.Failf("neighbors", "GeohashGetAllNeighbors(%s) = %v", h, nb)
				}
				for k, d := range [8][2]int64{{0, 1}, {1, 1}, {1, 0}, {1, -1}, {0, -1}, {-1, -1}, {-1, 0}, {-1, 1}} {
					r := row + d[1]
					if r < 0 || r >= rows {
						continue
					}
					if w := ghStr((col+d[0]+cols)%cols, r, len(h)); nb[k] != w {
						t.Failf("neighbors", "neighbour %d (N, NE, E, SE, S, SW, W, NW) of %s is %s, want %s", k, h, nb[k], w)
					}
				}
			}
			for n := 1; n <= Pick(c, 4, 5); n++ {
				n := n
				c.Enum(fmt.Sprintf("all hashes of length %d", n), Pow(32, n), func(i int64, t *T) {
					var s []byte
					for _, d := range Digits(i, 32, n, nil) {
						s = append(s, gh32[d])
					}
					t.Desc(func() string { return string(s) })
					check(t, string(s), 4326)
					t.Trace()
				})
			}
			// long hashes: two characters repeated in every pattern
			c.Enum("long hashes", 32*32*9*8, func(i int64, t *T) {
				d := Radix(i, []int{32, 32, 9, 8}, nil)
				n := d[2] + 4
				s := make([]byte, n)
				for k := range s {
					s[k] = gh32[d[0]]
					switch {
					case d[3] == 0 && k == n-1, d[3] == 1 && k%2 == 1, d[3] == 2 && k == 0, d[3] == 3 && k == n/2, d[3] == 4 && k >= n/2, d[3] == 5 && k%3 == 0, d[3] == 6 && k > 0, d[3] == 7 && k == n-2:
						s[k] = gh32[d[1]]
					}
				}
				t.Desc(func() string { return string(s) })
				check(t, string(s), geo.SRID([]int{4326, 3857}[i%2]))
				t.Trace()
			})
			// points: multiples of the cell size (borders exactly) and points between
			var xs, ys []float64
			for k := -16; k < 16; k++ {
				for _, o := range []float64{0, 1.0 / 3, 1e-9, 0.0078125, 0.999} {
					xs = append(xs, (float64(k)+o)*11.25)
					ys = append(ys, (float64(k)+o)*5.625)
				}
			}
			n := int64(len(xs))
			c.Enum("points at every precision", n*n*12, func(i int64, t *T) {
				p := geo.Point{X: xs[i%n], Y: ys[i/n%n]}
				prec := int(i/n/n) + 1
				t.Desc(func() string { return fmt.Sprintf("%v precision %d", p, prec) })
				cols, rows := ghDims(prec)
				fx, fy := (p.X+180)/360*float64(cols), (p.Y+90)/180*float64(rows)
				h := geo.GeohashEncode(p, uint(prec), 4326)
				t.ops++
				nr := func(f float64) bool { d := f - math.Round(f); return d != 0 && math.Abs(d) < 1e-4 }
				if nr(fx) || nr(fy) {
					// too near a border to tell for floating point: accept the cells on both sides
					okc := false
					for _, a := range []float64{fx - 1e-3, fx + 1e-3} {
						for _, b := range []float64{fy - 1e-3, fy + 1e-3} {
							if a >= 0 && b >= 0 && h == ghStr(int64(a), int64(b), prec) {
								okc = true
							}
						}
					}
					if !okc {
						t.Failf("encode", "GeohashEncode(%v, %d) = %s", p, prec, h)
					}
				} else if w := ghStr(int64(math.Floor(fx)), int64(math.Floor(fy)), prec); h != w {
					t.Failf("encode", "GeohashEncode(%v, %d) = %s, want %s", p, prec, h, w)
				}
				t.Trace()
			})
		}})

	// ------------------------------------------------------------ E04
	register(&Prop{ID: "E04", Rule: "every point of a lon-lat grid (with points at face borders, poles and the antimeridian) at every level, compared with an independent implementation of the S2 cell numbering",
		Assum: []string{"SRID 4326; a point closer to a cell border than floating point can tell may be in either cell"}, Run: func(c *Ctx) {
			pts := lonlatGrid(Pick(c, 3, 1.25, 0.75))
			for _, p := range lonlatGrid(15) {
				pts = append(pts, geo.Point{X: p.X/3 + 0.123456789, Y: p.Y/3 + 0.0987654321}, geo.Point{X: p.X*0.999 + 0.01, Y: p.Y * 0.9991})
			}
			n := int64(len(pts))
			c.Enum("points at every level", n*31, func(i int64, t *T) {
				p, level := pts[i%n], int(i/n)
				t.Desc(func() string { return fmt.Sprintf("%v level %d", p, level) })
				id := geo.S2GetCellID(p, level, 4326)
				t.ops += 4
				v := ll3(p.Y, p.X)
				cell := s2At(v, level)
				if cell.id() != id {
					// accept the cell on the other side of a border that is within rounding
					found := false
					ax := c3{0.3, -0.5, 0.7}
					e1 := v.cross(ax).norm()
					e2 := v.cross(e1).norm()
					for a := 0; a < 16 && !found; a++ {
						w := float64(a)*math.Pi/8 + 0.05
						q := v.add(e1.mul(4e-15 * math.Cos(w))).add(e2.mul(4e-15 * math.Sin(w))).norm()
						if x := s2At(q, level); x.id() == id {
							cell, found = x, true
						}
					}
					if !found {
						t.Failf("id", "S2GetCellID(%v, %d) = %x, want %x", p, level, id, s2At(v, level).id())
					}
				}
				ctr := geo.S2GetCenter(id, 4326)
				if ctr == nil || !s2Close(*ctr, cell.at(0.5, 0.5)) {
					la, lo := toLL(cell.at(0.5, 0.5))
					t.Failf("center", "S2GetCenter(%x) = %v, want lon %v lat %v", id, ctr, lo, la)
				}
				b := geo.S2GetBoundary(id, 4326)
				okb := len(b) == 4
				cs := cell.corners()
				if okb {
					okb = false
					for s := 0; s < 4; s++ {
						m := true
						for k := 0; k < 4; k++ {
							m = m && s2Close(b[k], cs[(k+s)%4])
						}
						okb = okb || m
					}
				}
				if !okb {
					t.Failf("boundary", "S2GetBoundary(%x) = %v, want the corners %v", id, b, cs)
				}
				if geo.S2GetCellID(p, level, 3857) != 0 || geo.S2GetCenter(id, 3857) != nil || len(geo.S2GetBoundary(id, 3857)) != 0 || len(geo.S2GetAllNeighbors(id, 3857)) != 0 {
					t.Failf("srid", "S2 cells of a reference system other than 4326")
				}
				// neighbours: probing needs a cell that is large against rounding
				nb := geo.S2GetAllNeighbors(id, 4326)
				t.ops++
				if level <= 28 {
					want := cell.neighbours()
					got := map[uint64]bool{}
					for _, x := range nb {
						got[x] = true
						if _, ok := want[x]; !ok {
							t.Failf("neighbors", "S2GetAllNeighbors(%x) has %x, which is not a neighbour (%d %v)", id, x, len(want), cell)
						}
					}
					if len(got) != len(want) {
						t.Failf("neighbors", "S2GetAllNeighbors(%x) has %d cells, want %d", id, len(got), len(want))
					}
				} else if w := int64(1) << uint(level); cell.i > 0 && cell.j > 0 && cell.i < w-1 && cell.j < w-1 {
					want := map[uint64]bool{}
					for di := int64(-1); di <= 1; di++ {
						for dj := int64(-1); dj <= 1; dj++ {
							if di != 0 || dj != 0 {
								want[s2cell{cell.face, level, cell.i + di, cell.j + dj}.id()] = true
							}
						}
					}
					for _, x := range nb {
						if !want[x] {
							t.Failf("neighbors", "S2GetAllNeighbors(%x) has %x, which is not a neighbour", id, x)
						}
						delete(want, x)
					}
					if len(want) > 0 {
						t.Failf("neighbors", "S2GetAllNeighbors(%x) = %x", id, nb)
					}
				}
				t.Trace()
			})
			c.Enum("all cells to a level", 6*Pow(4, Pick(c, 6, 9, 10)), func(i int64, t *T) {
				level := Pick(c, 6, 9, 10)
				w := int64(1) << uint(level)
				cell := s2cell{int(i / w / w), level, i / w % w, i % w}
				t.Desc(func() string { return fmt.Sprint(cell) })
				id := cell.id()
				la, lo := toLL(cell.at(0.5, 0.5))
				t.ops += 3
				if g := geo.S2GetCellID(geo.Point{X: lo, Y: la}, level, 4326); g != id {
					t.Failf("id", "S2GetCellID(%v %v, %d) = %x, want %x", lo, la, level, g, id)
				}
				want := cell.neighbours()
				nb := geo.S2GetAllNeighbors(id, 4326)
				got := map[uint64]bool{}
				for _, x := range nb {
					got[x] = true
					if _, ok := want[x]; !ok {
						t.Failf("neighbors", "S2GetAllNeighbors(%x) has %x, which is not a neighbour", id, x)
					}
				}
				if len(got) != len(want) {
					t.Failf("neighbors", "S2GetAllNeighbors(%x) has %d cells, want %d", id, len(got), len(want))
				}
				if ctr := geo.S2GetCenter(id, 4326); ctr == nil || !s2Close(*ctr, cell.at(0.5, 0.5)) {
					t.Failf("center", "S2GetCenter(%x) = %v, want lon %v lat %v", id, ctr, lo, la)
				}
				t.Trace()
			})
		}})

	// ------------------------------------------------------------ E05
	shapes5 := [][]geo.Point{
		{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 0, Y: 1}},
		{{X: 0, Y: 0}, {X: 2, Y: 0}, {X: 2, Y: 1}, {X: 0, Y: 1}},
		{{X: 0, Y: 0}, {X: 3, Y: 0}, {X: 3, Y: 3}, {X: 2, Y: 3}, {X: 2, Y: 1}, {X: 0, Y: 1}},
		{{X: 0, Y: 0}, {X: 3, Y: 0}, {X: 3, Y: 3}, {X: 0, Y: 3}, {X: 0, Y: 2}, {X: 2, Y: 2}, {X: 2, Y: 1}, {X: 0, Y: 1}},
		{{X: 0, Y: 0}, {X: 4, Y: 0.1}, {X: 4, Y: 0.2}, {X: 0.05, Y: 0.3}},
		{{X: 0, Y: 0}, {X: 0.1, Y: 3}, {X: -0.1, Y: 3.1}},
		{{X: 1, Y: 0}, {X: 2, Y: 1}, {X: 1, Y: 2}, {X: 0, Y: 1}},
		{{X: 0, Y: 0}, {X: 1, Y: 1}, {X: 2, Y: 0}, {X: 1, Y: 3}},
	}
	register(&Prop{ID: "E05", Rule: "every shape of a catalogue x place x size x ring direction x starting vertex x level, compared with an exact test of every cell around the shape in the gnomonic plane",
		Assum: []string{"simple outer rings smaller than 20 degrees; edges are great-circle arcs; cells that touch the ring within 1e-3 of a cell may be in or out", "interior rings are ignored by the cover"}, Run: func(c *Ctx) {
			places := []geo.Point{{X: 0.3, Y: 0.2}, {X: 113.25, Y: 23.1}, {X: 44.9, Y: 33.3}, {X: 45.0, Y: -36}, {X: 178.9, Y: -12.7}, {X: -121.3, Y: 61.7}, {X: 12, Y: 85.5}, {X: -60.7, Y: -80.2}}
			dirs := 2
			cellDeg := 90.0
			levels := Pick(c, []int{2, 4, 6, 9, 13, 20, 28}, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 20, 24, 26, 28, 30})
			ratios := Pick(c, []float64{0.1, 0.9, 2.3}, []float64{0.1, 0.25, 0.4, 0.7, 0.9, 1.3, 1.7, 2.3, 2.9, 4, 7})
			cover := func(t *T, ring []geo.Point, level int, hole bool) {
				poly := geo.Polygon{append(clonePts(ring), ring[0])}
				if hole {
					poly = append(poly, geo.LinearRing{ring[0], ring[1], ring[2], ring[0]})
				}
				t.Desc(func() string { return fmt.Sprintf("%v level %d", poly, level) })
				// antimeridian: the direction of the ring is that of its longitudes as given
				span := 0.0
				for _, a := range ring {
					for _, b := range ring {
						span = math.Max(span, math.Abs(a.X-b.X))
					}
				}
				if span > 180 {
					return // IsCCW works on plain longitudes; rings across the antimeridian are outside the property
				}
				in := cloneGeom(poly).(geo.Polygon)
				ids := geo.S2RegionCoverer(poly, level, 4326)
				t.ops++
				if fmt.Sprint(in) != fmt.Sprint(poly) {
					t.Failf("argument", "S2RegionCoverer changed its argument to %v", poly)
				}
				// reference
				var sum c3
				var dirs3 []c3
				for _, p := range ring {
					v := ll3(p.Y, p.X)
					dirs3 = append(dirs3, v)
					sum = sum.add(v)
				}
				ctr := sum.norm()
				e1 := ctr.cross(c3{0.11, 0.23, -0.97}).norm()
				e2 := ctr.cross(e1)
				var r2 []v2
				for _, v := range dirs3 {
					r2 = append(r2, gnomonic(ctr, e1, e2, v))
				}
				got := map[uint64]bool{}
				for _, x := range ids {
					if got[x] {
						t.Failf("duplicate", "the covering of %v at level %d has %x twice", poly, level, x)
					}
					got[x] = true
				}
				// all cells that meet the ring, by growing from the cells of the vertices
				type st struct {
					meet bool
					sure bool
					cell s2cell
				}
				seen := map[uint64]st{}
				var todo []s2cell
				visit := func(cl s2cell) {
					id := cl.id()
					if _, ok := seen[id]; ok {
						return
					}
					var q []v2
					for _, v := range cl.corners() {
						if v.dot(ctr) < 0.2 {
							seen[id] = st{false, false, cl}
							return
						}
						q = append(q, gnomonic(ctr, e1, e2, v))
					}
					size := math.Hypot(q[0].x-q[2].x, q[0].y-q[2].y)
					meet, clear := ringsMeet(q, r2)
					s := st{meet, clear > 1e-3*size, cl}
					seen[id] = s
					if meet || !s.sure {
						todo = append(todo, cl)
					}
				}
				for _, v := range dirs3 {
					visit(s2At(v, level))
				}
				for len(todo) > 0 && len(seen) < 20000 {
					cl := todo[len(todo)-1]
					todo = todo[:len(todo)-1]
					nb := cl.neighbours()
					for _, n := range nb {
						visit(n)
					}
				}
				for id, s := range seen {
					if s.sure && s.meet && !got[id] {
						t.Failf("missing", "the covering of %v at level %d lacks %x, which meets the polygon (it has %d cells)", poly, level, id, len(ids))
					}
				}
				for id := range got {
					s, ok := seen[id]
					if !ok || s.sure && !s.meet {
						t.Failf("excess", "the covering of %v at level %d has %x, which does not meet the polygon (it has %d cells)", poly, level, id, len(ids))
					}
				}
				t.Trace()
			}
			rad := []int{len(levels), len(ratios), len(places), len(shapes5), dirs, 2, 3}
			c.Enum("coverings", Product(rad), func(i int64, t *T) {
				d := Radix(i, rad, nil)
				level := levels[d[0]]
				unit := cellDeg / float64(int64(1)<<uint(level)) * ratios[d[1]]
				if unit*4 > 20 {
					return
				}
				o := places[d[2]]
				var ring []geo.Point
				src := shapes5[d[3]]
				for k := range src {
					s := src[(k+d[6])%len(src)]
					if d[4] == 1 {
						s = src[(len(src)-k+d[6])%len(src)]
					}
					q := geo.Point{X: o.X + s.X*unit, Y: o.Y + s.Y*unit*0.97}
					if q.Y > 89 || q.Y < -89 {
						return
					}
					if q.X > 180 {
						q.X -= 360
					}
					ring = append(ring, q)
				}
				cover(t, ring, level, d[5] == 1)
			})
			// rings of many corners: circles, stars and combs
			nl := Pick(c, []int{9, 33, 65, 130}, []int{9, 17, 33, 64, 65, 66, 100, 129, 257, 300, 513})
			lv2 := Pick(c, []int{5, 13, 21, 28}, []int{3, 5, 9, 13, 17, 21, 25, 28})
			rad2 := []int{len(nl), len(lv2), 3, len(places), 3, 2, 3}
			c.Enum("rings of many corners", Product(rad2), func(i int64, t *T) {
				d := Radix(i, rad2, nil)
				n, level := nl[d[0]], lv2[d[1]]
				unit := cellDeg / float64(int64(1)<<uint(level)) * []float64{0.3, 1.1, 2.6}[d[4]]
				if unit*2 > 20 {
					return
				}
				o := places[d[3]]
				var ring []geo.Point
				for k := 0; k < n; k++ {
					var x, y float64
					w := 2 * math.Pi * float64(k) / float64(n)
					switch d[2] {
					case 0:
						x, y = math.Cos(w), math.Sin(w)
					case 1:
						r := 1.0
						if k%2 == 1 {
							r = 0.55
						}
						if n%2 == 1 && k == n-1 {
							r = 0.8
						}
						x, y = r*math.Cos(w), r*math.Sin(w)
					case 2: // a comb: teeth to the left of a back
						switch {
						case k == n-1:
							x, y = 1.2, 1.2
						case k == 0:
							x, y = 1.2, -1.2
						default:
							y = -1 + 2*float64(k)/float64(n-1)
							x = 0.9
							if k%2 == 1 {
								x = -1
							}
						}
					}
					q := geo.Point{X: o.X + x*unit, Y: o.Y + y*unit*0.8}
					if q.Y > 89 || q.Y < -89 {
						return
					}
					if q.X > 180 {
						q.X -= 360
					}
					ring = append(ring, q)
				}
				if d[5] == 1 {
					for a, b := 0, len(ring)-1; a < b; a, b = a+1, b-1 {
						ring[a], ring[b] = ring[b], ring[a]
					}
				}
				ring = append(ring[d[6]*n/3:len(ring):len(ring)], ring[:d[6]*n/3]...)
				cover(t, ring, level, false)
			})
		}})
}

func nearF(a, b, tol float64) bool { return math.Abs(a-b) <= tol }
