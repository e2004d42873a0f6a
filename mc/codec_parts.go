package main

// W03: the exported parts of the WKT encoder and decoder.

import (
	"fmt"
	"strconv"
	"strings"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/wkt"
)

var wktReaders = []struct {
	name, kw string
	f        func(string) (geo.Geometry, error)
	outer    bool // reads the text with its outermost parentheses, too
}{
	{"PointFromWKT", "POINT", wkt.PointFromWKT, false},
	{"MultiPointFromWKT", "MULTIPOINT", wkt.MultiPointFromWKT, true},
	{"LineStringFromWKT", "LINESTRING", wkt.LineStringFromWKT, true},
	{"MultiLineStringFromWKT", "MULTILINESTRING", wkt.MultiLineStringFromWKT, false},
	{"PolygonFromWKT", "POLYGON", wkt.PolygonFromWKT, true},
	{"MultiPolygonFromWKT", "MULTIPOLYGON", wkt.MultiPolygonFromWKT, false},
}

func ringsOf2(g geo.Polygon) (l []geo.LineString) {
	for _, r := range g {
		l = append(l, geo.LineString(r))
	}
	return
}

func ringsOf3(g geo.PolygonZ) (l []geo.LineStringZ) {
	for _, r := range g {
		l = append(l, geo.LineStringZ(r))
	}
	return
}

// partTexts: what the exported pieces of the encoder write for g.
func partTexts(g geo.Geometry) (names, texts []string) {
	add := func(n, s string) { names, texts = append(names, n), append(texts, s) }
	switch g := g.(type) {
	case geo.Point:
		add("GeometryToWktString", "("+wkt.GeometryToWktString(g.X, g.Y)+")")
		add("PathToWktString", wkt.PathToWktString([]geo.Point{g}))
	case geo.PointZ:
		add("GeometryToWktStringZ", "("+wkt.GeometryToWktStringZ(g.X, g.Y, g.Z)+")")
		add("PathZToWktString", wkt.PathZToWktString([]geo.PointZ{g}))
	case geo.MultiPoint:
		add("PathToWktString", wkt.PathToWktString(g))
	case geo.MultiPointZ:
		add("PathZToWktString", wkt.PathZToWktString(g))
	case geo.LineString:
		add("PathToWktString", wkt.PathToWktString(g))
	case geo.LineStringZ:
		add("PathZToWktString", wkt.PathZToWktString(g))
	case geo.MultiLineString:
		add("PolygonToWktString", wkt.PolygonToWktString(g))
	case geo.MultiLineStringZ:
		add("PolygonZToWktString", wkt.PolygonZToWktString(g))
	case geo.Polygon:
		add("PolygonToWktString2", wkt.PolygonToWktString2(g))
		add("PolygonToWktString", wkt.PolygonToWktString(ringsOf2(g)))
	case geo.PolygonZ:
		add("PolygonZToWktString2", wkt.PolygonZToWktString2(g))
		add("PolygonZToWktString", wkt.PolygonZToWktString(ringsOf3(g)))
	case geo.MultiPolygon:
		add("MultiPolygonToWktString", wkt.MultiPolygonToWktString(g))
	case geo.MultiPolygonZ:
		add("MultiPolygonZToWktString", wkt.MultiPolygonZToWktString(g))
	}
	return
}

func init() {
	register(&Prop{ID: "W03", Rule: "every combination of geometry type, dimension and numbers of parts, holes and points up to a bound, with extreme and ordinary coordinates, through every exported piece of the encoder and every exported reader; every sequence of tokens up to a length through every reader",
		Assum: []string{"readers are given the text between the outermost parentheses without spaces next to parentheses and commas, as Decode gives it to them, with as many opening as closing ones"}, Run: func(c *Ctx) {
			sh := withOpen(gshapes(Pick(c, 3, 4), 3, Pick(c, 2, 3)))
			n := int64(len(sh))
			trip := func(t *T, s gshape, g geo.Geometry) {
				txt := wktText(g, wktStyle{}, false)
				body := txt[strings.Index(txt, "("):]
				t.Desc(func() string { return fmt.Sprint(s, " ", txt) })
				names, texts := partTexts(g)
				for k := range names {
					t.ops++
					if texts[k] != body {
						t.Failf("encode", "%s writes %q for %v, want %q", names[k], texts[k], g, body)
					}
				}
				if s.open {
					g, _ = closeRings(g)
				}
				r := wktReaders[s.kind]
				in := []string{body[1 : len(body)-1]}
				if r.outer {
					in = append(in, body)
				}
				for _, x := range in {
					t.ops++
					got, err := r.f(x)
					if err != nil || !sameGeom(got, g) {
						t.Failf("read", "%s(%q) = %T %v, %v; want %T %v", r.name, x, got, got, err, g, g)
					}
				}
				t.Trace()
			}
			c.Enum("pieces of the encoder and readers", n*int64(len(coordVals)+1), func(i int64, t *T) {
				s, v := sh[i%n], int(i/n)
				next := cntSeq()
				if v > 0 {
					next = valSeq(v-1, 1+v%3*4)
				}
				trip(t, s, s.build(next))
			})
			codecExtra(c, trip)
			tok := []string{"(", ")", ",", " ", "1", "-2.5", "x"}
			nt := len(tok)
			for n := 0; n <= Pick(c, 6, 7, 8); n++ {
				n := n
				tot := Pow(nt, n)
				c.Enum(fmt.Sprintf("%d tokens for every reader", n), tot*int64(len(wktReaders)), func(i int64, t *T) {
					r := wktReaders[i/tot]
					var b strings.Builder
					for _, k := range Digits(i%tot, nt, n, nil) {
						b.WriteString(tok[k])
					}
					s := b.String()
					t.Desc(func() string { return fmt.Sprintf("%s(%q)", r.name, s) })
					t.ops++
					g, err := r.f(s)
					if err == nil && g == nil {
						t.Failf("nil", "%s(%q) returned neither a geometry nor an error", r.name, s)
					}
					full := r.kw + "(" + s + ")"
					if ref, e := wktParse(full); e == nil && !strings.Contains(s, " ,") && !strings.Contains(s, ", ") && !strings.Contains(s, "( ") && !strings.Contains(s, " )") && !strings.HasPrefix(s, " ") && !strings.HasSuffix(s, " ") && !strings.Contains(s, " (") && !strings.Contains(s, ") ") {
						if want, ok := closeRings(ref); ok {
							t.Out("valid")
							if err != nil || !sameGeom(g, want) {
								t.Failf("valid", "%s(%q) = %T %v, %v; want %T %v", r.name, s, g, g, err, want, want)
							}
						}
					} else if wktMalformed(full) && strings.Count(s, "(") == strings.Count(s, ")") {
						t.Out("malformed")
						if err == nil {
							t.Failf("malformed", "%s(%q) = %T %v without an error", r.name, s, g, g)
						}
					} else {
						t.Out("left open")
					}
					t.Trace()
				})
			}
		}})
}

// codecExtra: large geometries, numbers of every magnitude, repeated points, and rings that are nearly closed.
func codecExtra(c *Ctx, f func(t *T, s gshape, g geo.Geometry)) {
	rep := func(v, n int) (r []int) {
		for k := 0; k < n; k++ {
			r = append(r, v)
		}
		return
	}
	mixed := func(n int) (r []int) {
		for k := 0; k < n; k++ {
			r = append(r, 2+k%4)
		}
		return
	}
	large := func(n int) (l []gshape) {
		for _, z := range []bool{false, true} {
			l = append(l, gshape{kind: 1, z: z, parts: [][]int{{n}}}, gshape{kind: 2, z: z, parts: [][]int{{n}}},
				gshape{kind: 3, z: z, parts: [][]int{{n, 2}}}, gshape{kind: 3, z: z, parts: [][]int{mixed(n)}}, gshape{kind: 3, z: z, parts: [][]int{rep(2, n)}},
				gshape{kind: 4, z: z, parts: [][]int{{3, n + 1}}}, gshape{kind: 4, z: z, parts: [][]int{mixed(n)}},
				gshape{kind: 5, z: z, parts: [][]int{{n + 1}, {3}}}, gshape{kind: 5, z: z, parts: [][]int{{3}, mixed(n), {4, 3}}})
			var p [][]int
			for k := 0; k < n; k++ {
				p = append(p, rep(3, 1+k%3))
			}
			l = append(l, gshape{kind: 5, z: z, parts: p})
		}
		return withOpen(l)
	}
	var sizes []int
	for n := 1; n <= Pick(c, 70, 150, 400); n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, Pick(c, []int{255, 256, 257, 1000, 1025}, []int{255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4097, 8193})...)
	nl := len(large(1))
	c.Enum("large geometries", int64(len(sizes)*nl*2), func(i int64, t *T) {
		s := large(sizes[int(i)/nl/2])[int(i)/2%nl]
		next := cntSeq()
		if i%2 == 1 {
			k := 0.0
			next = func() float64 { k++; return (k*k*7919 - 1e5) / 3 }
		}
		g := s.build(next)
		s.parts = nil
		f(t, s, g)
	})
	mant := []string{"1", "-1", "1.5", "9.999999999999999", "-1.0000000000000002", "4.35", "7.123456789012345", "-2.2250738585072014", "5", "1.1234567", "3.00000001"}
	var mags []float64
	for e := -323; e <= 308; e += 1 {
		for _, m := range mant {
			v, err := strconv.ParseFloat(fmt.Sprintf("%se%d", m, e), 64)
			if err == nil && v != 0 {
				mags = append(mags, v)
			}
		}
	}
	c.Enum("numbers of every magnitude", int64(len(mags)*4), func(i int64, t *T) {
		v, k := mags[i/4], int(i%4)
		s := gshape{kind: 0, z: k%2 == 1}
		next := func() float64 { k++; return [...]float64{v, 1, -v, 0}[k%4] }
		if i%3 == 0 {
			s.kind, s.parts = 2, [][]int{{3}}
		}
		f(t, s, s.build(next))
	})
	// every sequence of a few points, most of them repeated, as a part of every type
	for n := 1; n <= Pick(c, 5, 6); n++ {
		n := n
		tot := Pow(3, n)
		c.Enum(fmt.Sprintf("repeated points, %d per part", n), tot*10, func(i int64, t *T) {
			d := Digits(i%tot, 3, n, nil)
			s := gshape{kind: int(i/tot)%5 + 1, z: i/tot >= 5}
			if s.kind >= 4 && n < 2 {
				return
			}
			s.parts = [][]int{{n}}
			if s.kind >= 3 {
				s.parts = [][]int{{n, n}}
			}
			if s.kind == 5 {
				s.parts = append(s.parts, []int{n})
			}
			dim, k := 2, 0
			if s.z {
				dim = 3
			}
			next := func() float64 {
				pt := d[k/dim%n]
				v := [3][3]float64{{0, 0, 0}, {2, -3.5, 1}, {2, 4, -1}}[pt][k%dim]
				k++
				return v
			}
			s.open = true
			f(t, s, s.build(next))
		})
	}
	offs := []float64{0, 4e-7, -4e-7, 9.9e-7, -9.9e-7, 1.1e-6, -1.1e-6, 1e-5}
	no := len(offs)
	c.Enum("rings that are nearly closed", int64(no*no*no*8), func(i int64, t *T) {
		d := Radix(i, []int{no, no, no, 2, 2, 2}, nil)
		s := gshape{kind: 4 + d[3], z: d[4] == 1, open: true}
		at := []float64{0, 0, 0}
		if d[5] == 1 {
			at = []float64{113.25, -23.5, 1000}
		}
		ring := []geo.PointZ{{X: at[0], Y: at[1], Z: at[2]}, {X: 5, Y: 1, Z: 1}, {X: 3, Y: 6, Z: -2}, {X: at[0] + offs[d[0]], Y: at[1] + offs[d[1]], Z: at[2] + offs[d[2]]}}
		hole := []geo.PointZ{{X: 1, Y: 1, Z: 1}, {X: 2, Y: 1, Z: 1}, {X: 2, Y: 2, Z: 1}, {X: 1 - offs[d[1]], Y: 1 + offs[d[0]], Z: 1 - offs[d[2]]}}
		flat := func(r []geo.PointZ) (l geo.LinearRing) {
			for _, p := range r {
				l = append(l, geo.Point{X: p.X, Y: p.Y})
			}
			return
		}
		var g geo.Geometry
		switch {
		case s.kind == 4 && s.z:
			g = geo.PolygonZ{ring, hole}
		case s.kind == 4:
			g = geo.Polygon{flat(ring), flat(hole)}
		case s.z:
			g = geo.MultiPolygonZ{{hole}, {ring, hole}}
		default:
			g = geo.MultiPolygon{{flat(hole)}, {flat(ring), flat(hole)}}
		}
		f(t, s, g)
	})
}
