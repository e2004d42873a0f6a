package main

// WKT and GeoJSON (W01, W02, J01-J04).

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"
)

// ------------------------------------------------------------------ geometries by shape

// kinds of geometry, two- and three-dimensional
var kindNames = []string{"Point", "MultiPoint", "LineString", "MultiLineString", "Polygon", "MultiPolygon"}

// shape: the numbers of points of the parts: for a MultiPolygon one slice per polygon, for a
// Polygon or MultiLineString one slice, otherwise one number.
type gshape struct {
	kind  int
	z     bool
	parts [][]int
	open  bool // rings without the closing point
}

// withOpen adds the shapes with rings that are not closed.
func withOpen(l []gshape) (r []gshape) {
	r = append(r, l...)
	for _, s := range l {
		if s.kind >= 4 {
			s.open = true
			r = append(r, s)
		}
	}
	return
}

func (s gshape) String() string {
	n := kindNames[s.kind]
	if s.z {
		n += "Z"
	}
	if s.open {
		n = "open " + n
	}
	return fmt.Sprint(n, s.parts)
}

// build takes coordinates from next.
func (s gshape) build(next func() float64) geo.Geometry {
	pt := func() geo.Point { return geo.Point{X: next(), Y: next()} }
	ptz := func() geo.PointZ { return geo.PointZ{X: next(), Y: next(), Z: next()} }
	line := func(n int) []geo.Point {
		var r []geo.Point
		for k := 0; k < n; k++ {
			r = append(r, pt())
		}
		return r
	}
	linez := func(n int) []geo.PointZ {
		var r []geo.PointZ
		for k := 0; k < n; k++ {
			r = append(r, ptz())
		}
		return r
	}
	ring := func(n int) geo.LinearRing {
		l := line(n)
		if s.open {
			return l
		}
		return append(l, l[0])
	}
	ringz := func(n int) geo.LinearRingZ {
		l := linez(n)
		if s.open {
			return l
		}
		return append(l, l[0])
	}
	poly := func(p []int) geo.Polygon {
		var r geo.Polygon
		for _, n := range p {
			r = append(r, ring(n))
		}
		return r
	}
	polyz := func(p []int) geo.PolygonZ {
		var r geo.PolygonZ
		for _, n := range p {
			r = append(r, ringz(n))
		}
		return r
	}
	switch s.kind {
	case 0:
		if s.z {
			return ptz()
		}
		return pt()
	case 1:
		if s.z {
			return geo.MultiPointZ(linez(s.parts[0][0]))
		}
		return geo.MultiPoint(line(s.parts[0][0]))
	case 2:
		if s.z {
			return geo.LineStringZ(linez(s.parts[0][0]))
		}
		return geo.LineString(line(s.parts[0][0]))
	case 3:
		var m geo.MultiLineString
		var mz geo.MultiLineStringZ
		for _, n := range s.parts[0] {
			if s.z {
				mz = append(mz, linez(n))
			} else {
				m = append(m, line(n))
			}
		}
		if s.z {
			return mz
		}
		return m
	case 4:
		if s.z {
			return polyz(s.parts[0])
		}
		return poly(s.parts[0])
	}
	var m geo.MultiPolygon
	var mz geo.MultiPolygonZ
	for _, p := range s.parts {
		if s.z {
			mz = append(mz, polyz(p))
		} else {
			m = append(m, poly(p))
		}
	}
	if s.z {
		return mz
	}
	return m
}

// tuples lists all sequences of 1 to n numbers from vals.
func tuples(vals []int, n int) (r [][]int) {
	cur := [][]int{{}}
	for k := 0; k < n; k++ {
		var nx [][]int
		for _, c := range cur {
			for _, v := range vals {
				nx = append(nx, append(append([]int{}, c...), v))
			}
		}
		r = append(r, nx...)
		cur = nx
	}
	return
}

// gshapes: points per line from 1 (a line may be a single point) to n, rings with 2 to n points before closing.
func gshapes(nPts, nParts, nPolys int) (r []gshape) {
	up := func(lo, hi int) (v []int) {
		for k := lo; k <= hi; k++ {
			v = append(v, k)
		}
		return
	}
	for _, z := range []bool{false, true} {
		r = append(r, gshape{kind: 0, z: z})
		for k := 1; k <= nPts+2; k++ {
			r = append(r, gshape{kind: 1, z: z, parts: [][]int{{k}}}, gshape{kind: 2, z: z, parts: [][]int{{k}}})
		}
		for _, p := range tuples(up(1, nPts), nParts) {
			r = append(r, gshape{kind: 3, z: z, parts: [][]int{p}})
		}
		rings := tuples(up(2, nPts), nParts)
		for _, p := range rings {
			r = append(r, gshape{kind: 4, z: z, parts: [][]int{p}})
		}
		var idx []int
		for k := range rings {
			if len(rings[k]) <= 2 {
				idx = append(idx, k)
			}
		}
		for _, q := range tuples(idx, nPolys) {
			s := gshape{kind: 5, z: z}
			for _, k := range q {
				s.parts = append(s.parts, rings[k])
			}
			r = append(r, s)
		}
	}
	return
}

var coordVals = []float64{0, 1, -1, 0.5, 113.324520, -23.106450, 1e-7, -1e-7, 180, -90, 1e15 + 0.125, 12345678.900000001, 0.1, -1e21, 1e-300, 5e-324, math.MaxFloat64, -math.MaxFloat64, 1.0 / 3, math.Copysign(0, -1), 1e9, 100, 1000000}

// valSeq returns a coordinate source that starts at position o of the values and walks with step s.
func valSeq(o, s int) func() float64 {
	k := o
	return func() float64 {
		v := coordVals[((k%len(coordVals))+len(coordVals))%len(coordVals)]
		k += s
		return v
	}
}

// distinct coordinates
func cntSeq() func() float64 {
	k := 0.0
	return func() float64 { k++; return k*k/4 - 7 }
}

func sameGeom(a, b geo.Geometry) bool {
	return reflect.TypeOf(a) == reflect.TypeOf(b) && reflect.DeepEqual(a, b)
}

// ------------------------------------------------------------------ independent WKT reader and writer

type wktStyle struct{ afterKw, in, comma, preComma, num int }

func fnum(v float64, style int) string {
	switch style {
	case 1:
		return strconv.FormatFloat(v, 'e', -1, 64)
	case 2:
		s := strconv.FormatFloat(v, 'f', -1, 64)
		if v >= 0 && !math.Signbit(v) {
			s = "+" + s
		}
		return s
	case 3:
		s := strconv.FormatFloat(v, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += ".000"
		} else {
			s += "00"
		}
		return s
	}
	return strconv.FormatFloat(v, 'f', -1, 64)
}

// wktText writes g with the given spacing.
func wktText(g geo.Geometry, st wktStyle, mpParens bool) string {
	sp := func(n int) string { return strings.Repeat(" ", n) }
	open, cl := "("+sp(st.in), sp(st.in)+")"
	sep := sp(st.preComma) + "," + sp(st.comma)
	num := func(v ...float64) string {
		var p []string
		for _, x := range v {
			p = append(p, fnum(x, st.num))
		}
		return strings.Join(p, sp(1+st.num%2))
	}
	group := func(n int, f func(k int) string) string {
		var p []string
		for k := 0; k < n; k++ {
			p = append(p, f(k))
		}
		return open + strings.Join(p, sep) + cl
	}
	pts := func(p []geo.Point) string { return group(len(p), func(k int) string { return num(p[k].X, p[k].Y) }) }
	ptz := func(p []geo.PointZ) string {
		return group(len(p), func(k int) string { return num(p[k].X, p[k].Y, p[k].Z) })
	}
	kw := func(s, body string) string { return s + sp(st.afterKw) + body }
	switch g := g.(type) {
	case geo.Point:
		return kw("POINT", pts([]geo.Point{g}))
	case geo.PointZ:
		return kw("POINT", ptz([]geo.PointZ{g}))
	case geo.LineString:
		return kw("LINESTRING", pts(g))
	case geo.LineStringZ:
		return kw("LINESTRING", ptz(g))
	case geo.MultiPoint:
		if mpParens {
			return kw("MULTIPOINT", group(len(g), func(k int) string { return pts([]geo.Point{g[k]}) }))
		}
		return kw("MULTIPOINT", pts(g))
	case geo.MultiPointZ:
		if mpParens {
			return kw("MULTIPOINT", group(len(g), func(k int) string { return ptz([]geo.PointZ{g[k]}) }))
		}
		return kw("MULTIPOINT", ptz(g))
	case geo.MultiLineString:
		return kw("MULTILINESTRING", group(len(g), func(k int) string { return pts(g[k]) }))
	case geo.MultiLineStringZ:
		return kw("MULTILINESTRING", group(len(g), func(k int) string { return ptz(g[k]) }))
	case geo.Polygon:
		return kw("POLYGON", group(len(g), func(k int) string { return pts(g[k]) }))
	case geo.PolygonZ:
		return kw("POLYGON", group(len(g), func(k int) string { return ptz(g[k]) }))
	case geo.MultiPolygon:
		return kw("MULTIPOLYGON", group(len(g), func(k int) string {
			return group(len(g[k]), func(j int) string { return pts(g[k][j]) })
		}))
	case geo.MultiPolygonZ:
		return kw("MULTIPOLYGON", group(len(g), func(k int) string {
			return group(len(g[k]), func(j int) string { return ptz(g[k][j]) })
		}))
	}
	return ""
}

// tree: a parsed parenthesised text; leaves are points.
type wtree struct {
	pt   []float64
	kids []wtree
	leaf bool
}

// wktParse reads strict WKT: keyword, nested lists, no trailing text.
func wktParse(s string) (g geo.Geometry, err error) {
	defer func() {
		if r := recover(); r != nil {
			g, err = nil, fmt.Errorf("%v", r)
		}
	}()
	pos := 0
	ws := func() {
		for pos < len(s) && s[pos] == ' ' {
			pos++
		}
	}
	ws()
	k0 := pos
	for pos < len(s) && s[pos] >= 'A' && s[pos] <= 'Z' {
		pos++
	}
	kw := s[k0:pos]
	ws()
	var list func() wtree
	point := func() wtree {
		var v []float64
		for {
			ws()
			a := pos
			for pos < len(s) && strings.IndexByte(" ,()", s[pos]) < 0 {
				pos++
			}
			if a == pos {
				break
			}
			f, e := strconv.ParseFloat(s[a:pos], 64)
			if e != nil {
				panic(e)
			}
			v = append(v, f)
		}
		if len(v) != 2 && len(v) != 3 {
			panic("not a position")
		}
		return wtree{pt: v, leaf: true}
	}
	list = func() wtree {
		if pos >= len(s) || s[pos] != '(' {
			panic("no parenthesis")
		}
		pos++
		var t wtree
		for {
			ws()
			if pos < len(s) && s[pos] == '(' {
				t.kids = append(t.kids, list())
			} else {
				t.kids = append(t.kids, point())
			}
			ws()
			if pos >= len(s) {
				panic("ends early")
			}
			if s[pos] == ')' {
				pos++
				return t
			}
			if s[pos] != ',' {
				panic("no comma")
			}
			pos++
		}
	}
	t := list()
	ws()
	if pos != len(s) {
		panic("text behind the geometry")
	}
	dim := 0
	path := func(t wtree) (p []geo.Point, z []geo.PointZ) {
		for _, k := range t.kids {
			if !k.leaf {
				panic("nesting")
			}
			if dim == 0 {
				dim = len(k.pt)
			}
			if dim != len(k.pt) {
				panic("mixed dimensions")
			}
			if dim == 2 {
				p = append(p, geo.Point{X: k.pt[0], Y: k.pt[1]})
			} else {
				z = append(z, geo.PointZ{X: k.pt[0], Y: k.pt[1], Z: k.pt[2]})
			}
		}
		return
	}
	noleaf := func(t wtree) wtree {
		if t.leaf {
			panic("nesting")
		}
		return t
	}
	poly := func(t wtree) (g geo.Polygon, gz geo.PolygonZ) {
		for _, k := range noleaf(t).kids {
			p, z := path(noleaf(k))
			if p != nil {
				g = append(g, p)
			} else {
				gz = append(gz, z)
			}
		}
		return
	}
	switch kw {
	case "POINT":
		p, z := path(t)
		if len(p)+len(z) != 1 {
			panic("one point expected")
		}
		if p != nil {
			return p[0], nil
		}
		return z[0], nil
	case "LINESTRING":
		p, z := path(t)
		if p != nil {
			return geo.LineString(p), nil
		}
		return geo.LineStringZ(z), nil
	case "MULTIPOINT":
		if len(t.kids) > 0 && !t.kids[0].leaf {
			var f wtree
			for _, k := range t.kids {
				if len(noleaf(k).kids) != 1 {
					panic("nesting")
				}
				f.kids = append(f.kids, k.kids[0])
			}
			t = f
		}
		p, z := path(t)
		if p != nil {
			return geo.MultiPoint(p), nil
		}
		return geo.MultiPointZ(z), nil
	case "MULTILINESTRING":
		var m geo.MultiLineString
		var mz geo.MultiLineStringZ
		for _, k := range t.kids {
			p, z := path(noleaf(k))
			if p != nil {
				m = append(m, p)
			} else {
				mz = append(mz, z)
			}
		}
		if m != nil {
			return m, nil
		}
		return mz, nil
	case "POLYGON":
		g, gz := poly(t)
		if g != nil {
			return g, nil
		}
		return gz, nil
	case "MULTIPOLYGON":
		var m geo.MultiPolygon
		var mz geo.MultiPolygonZ
		for _, k := range t.kids {
			g, gz := poly(k)
			if g != nil {
				m = append(m, g)
			} else {
				mz = append(mz, gz)
			}
		}
		if m != nil {
			return m, nil
		}
		return mz, nil
	}
	panic("keyword")
}

// closeRings closes open rings the way reading a polygon does.
func closeRings(g geo.Geometry) (geo.Geometry, bool) {
	ok := true
	ring := func(r geo.LinearRing) geo.LinearRing {
		if len(r) < 2 {
			ok = false
			return r
		}
		return wantRing(r)
	}
	ringz := func(r geo.LinearRingZ) geo.LinearRingZ {
		if len(r) < 2 {
			ok = false
			return r
		}
		a, b := r[0], r[len(r)-1]
		q := clonePtsZ(r)
		if !(ptEq(geo.Point{X: a.X, Y: a.Y}, geo.Point{X: b.X, Y: b.Y}) && ptEq(geo.Point{X: a.Z}, geo.Point{X: b.Z})) {
			q = append(q, a)
		}
		return q
	}
	g = cloneGeom(g)
	switch g := g.(type) {
	case geo.Polygon:
		for k := range g {
			g[k] = ring(g[k])
		}
	case geo.PolygonZ:
		for k := range g {
			g[k] = ringz(g[k])
		}
	case geo.MultiPolygon:
		for _, p := range g {
			for k := range p {
				p[k] = ring(p[k])
			}
		}
	case geo.MultiPolygonZ:
		for _, p := range g {
			for k := range p {
				p[k] = ringz(p[k])
			}
		}
	}
	return g, ok
}

var wktKw = []string{"POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON"}

// wktMalformed: text that is certainly not WKT of one of the geometries: no keyword before the
// parenthesis, unequal numbers of parentheses, or a run between separators that is not two or
// three numbers, or different dimensions.
func wktMalformed(s string) bool {
	if strings.Count(s, "(") != strings.Count(s, ")") || strings.Count(s, "(") == 0 {
		return true
	}
	s = strings.Trim(s, " ")
	a := strings.IndexByte(s, '(')
	kw := strings.TrimRight(s[:a], " \n\t")
	known := false
	for _, k := range wktKw {
		known = known || k == kw
	}
	if !known {
		// text in front of the geometry is left open
		for _, k := range wktKw {
			if strings.Contains(strings.NewReplacer(" ", "", "\n", "").Replace(s), k+"(") {
				return false
			}
		}
		return true
	}
	if !strings.HasSuffix(s, ")") {
		return false
	}
	dim, n := 0, 0
	body := s[a:]
	for _, run := range strings.FieldsFunc(body, func(r rune) bool { return r == '(' || r == ')' || r == ',' }) {
		f := strings.Fields(run)
		if len(f) == 0 {
			continue
		}
		n++
		if len(f) != 2 && len(f) != 3 || dim != 0 && dim != len(f) {
			return true
		}
		dim = len(f)
		for _, x := range f {
			if _, err := strconv.ParseFloat(x, 64); err != nil {
				return true
			}
		}
	}
	if n == 0 {
		return true
	}
	b := strings.ReplaceAll(body, " ", "")
	for _, p := range []string{"()", "(,"} {
		if strings.Contains(b, p) && strings.Count(b, "(") == 1 {
			return true
		}
	}
	// positions of a single list with an empty term
	if strings.Count(b, "(") == 1 && (strings.Contains(b, ",,") || strings.Contains(b, ",)")) {
		return true
	}
	if kw == "POINT" && n != 1 {
		return true
	}
	return false
}

func decodeWKT(t *T, s string) (g geo.Geometry, err error) {
	t.ops++
	g, err = wkt.Decode(s)
	if err == nil && g == nil {
		t.Failf("nil", "Decode(%q) returned neither a geometry nor an error", s)
	}
	return
}

// ------------------------------------------------------------------ GeoJSON reference

// coordsOf: the coordinates as nested lists of numbers.
func coordsOf(g geo.Geometry) (string, interface{}) {
	p2 := func(p geo.Point) interface{} { return []interface{}{p.X, p.Y} }
	p3 := func(p geo.PointZ) interface{} { return []interface{}{p.X, p.Y, p.Z} }
	l2 := func(l []geo.Point) interface{} {
		var r []interface{}
		for _, p := range l {
			r = append(r, p2(p))
		}
		return r
	}
	l3 := func(l []geo.PointZ) interface{} {
		var r []interface{}
		for _, p := range l {
			r = append(r, p3(p))
		}
		return r
	}
	pg := func(g geo.Polygon) interface{} {
		var r []interface{}
		for _, l := range g {
			r = append(r, l2(l))
		}
		return r
	}
	pgz := func(g geo.PolygonZ) interface{} {
		var r []interface{}
		for _, l := range g {
			r = append(r, l3(l))
		}
		return r
	}
	var r []interface{}
	switch g := g.(type) {
	case geo.Point:
		return "Point", p2(g)
	case geo.PointZ:
		return "Point", p3(g)
	case geo.MultiPoint:
		return "MultiPoint", l2(g)
	case geo.MultiPointZ:
		return "MultiPoint", l3(g)
	case geo.LineString:
		return "LineString", l2(g)
	case geo.LineStringZ:
		return "LineString", l3(g)
	case geo.MultiLineString:
		for _, l := range g {
			r = append(r, l2(l))
		}
		return "MultiLineString", r
	case geo.MultiLineStringZ:
		for _, l := range g {
			r = append(r, l3(l))
		}
		return "MultiLineString", r
	case geo.Polygon:
		return "Polygon", pg(g)
	case geo.PolygonZ:
		return "Polygon", pgz(g)
	case geo.MultiPolygon:
		for _, p := range g {
			r = append(r, pg(p))
		}
		return "MultiPolygon", r
	case geo.MultiPolygonZ:
		for _, p := range g {
			r = append(r, pgz(p))
		}
		return "MultiPolygon", r
	}
	return "", nil
}

func parseJSON(t *T, b []byte) map[string]interface{} {
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil {
		t.Failf("json", "not JSON: %v: %s", err, b)
	}
	return m
}

func checkGeomJSON(t *T, what string, v interface{}, g geo.Geometry) {
	ty, co := coordsOf(g)
	m, _ := v.(map[string]interface{})
	if m == nil || m["type"] != ty || !reflect.DeepEqual(m["coordinates"], co) {
		t.Failf("geometry", "%s of %v is %v, want type %s and coordinates %v", what, g, v, ty, co)
	}
}

// geometry trees for malformed GeoJSON
func jsonLeaves() []interface{} {
	return []interface{}{nil, true, "1", 1.5, -2.0, map[string]interface{}{}, []interface{}{}}
}

// validPos and so on: numbers of a position
func validPos(v interface{}) (int, bool) {
	l, ok := v.([]interface{})
	if !ok || len(l) != 2 && len(l) != 3 {
		return 0, false
	}
	for _, x := range l {
		if _, ok := x.(float64); !ok {
			return 0, false
		}
	}
	return len(l), true
}

// validPath: -1 not valid, 0 empty, 2 or 3 dimension
func validPath(v interface{}) int {
	l, ok := v.([]interface{})
	if !ok {
		return -1
	}
	dim := 0
	for _, x := range l {
		d, ok := validPos(x)
		if !ok || dim != 0 && d != dim {
			return -1
		}
		dim = d
	}
	return dim
}

func validPaths(v interface{}) (dim int, empty bool) {
	l, ok := v.([]interface{})
	if !ok {
		return -1, false
	}
	for _, x := range l {
		d := validPath(x)
		if d < 0 || d > 0 && dim != 0 && d != dim {
			return -1, false
		}
		if d == 0 {
			empty = true
		} else {
			dim = d
		}
	}
	return dim, empty || len(l) == 0
}

func init() {
	// ------------------------------------------------------------ W01
	register(&Prop{ID: "W01", Rule: "every combination of geometry type, dimension and numbers of parts, holes and points up to a bound, with coordinate values from a list of extreme and ordinary numbers in every rotation; the text is read back by an independent reader, and Decode reads the text of an independent writer in every spacing",
		Assum: []string{"coordinates are finite; every part has at least one point"}, Run: func(c *Ctx) {
			sh := gshapes(Pick(c, 3, 4), 3, Pick(c, 2, 3))
			if c.Thorough() {
				sh = append(sh, gshapes(3, 3, 3)...)
			}
			sh = withOpen(sh)
			nv := len(coordVals)
			n := int64(len(sh))
			trip := func(t *T, s gshape, g geo.Geometry) {
				txt := wkt.Encode(g)
				t.Desc(func() string { return fmt.Sprint(s, " ", txt) })
				t.ops++
				ref, err := wktParse(txt)
				if err != nil || !sameGeom(ref, g) {
					t.Failf("encode", "Encode(%v %v) = %q, which reads as %v (%v)", s, g, txt, ref, err)
				}
				if w := wktText(g, wktStyle{}, false); txt != w {
					t.Failf("digits", "Encode(%v) = %q, want %q", g, txt, w)
				}
				got, err := decodeWKT(t, txt)
				if s.open {
					g, _ = closeRings(g)
				}
				if err != nil || !sameGeom(got, g) {
					t.Failf("round-trip", "Decode(%q) = %T %v, %v; want %T %v", txt, got, got, err, g, g)
				}
				t.Trace()
			}
			c.Enum("round trip", n*int64(nv+1), func(i int64, t *T) {
				s, v := sh[i%n], int(i/n)
				next := cntSeq()
				if v > 0 {
					next = valSeq(v-1, 1+v%3*4)
				}
				trip(t, s, s.build(next))
			})
			codecExtra(c, trip)
			rad := []int{3, 2, 3, 2, 4, 2}
			st := Product(rad)
			sh2 := gshapes(3, 2, 2)
			n2 := int64(len(sh2))
			c.Enum("spacing and number formats", n2*st*2, func(i int64, t *T) {
				d := Radix(i%st, rad, nil)
				s := sh2[i/st%n2]
				next := cntSeq()
				if i/st/n2 == 1 {
					next = valSeq(int(i%7), 3)
				}
				g := s.build(next)
				if s.kind != 1 && d[5] == 1 {
					return
				}
				txt := wktText(g, wktStyle{d[0], d[1], d[2], d[3], d[4]}, d[5] == 1)
				if d[1] == 1 && i%2 == 1 {
					txt = " " + txt + "  "
				}
				t.Desc(func() string { return txt })
				ref, err := wktParse(txt)
				if err != nil || !sameGeom(ref, g) {
					panic(fmt.Sprintf("reference reader and writer differ on %q: %v %v %v", txt, ref, g, err))
				}
				got, err := decodeWKT(t, txt)
				if err != nil || !sameGeom(got, g) {
					t.Failf("decode", "Decode(%q) = %T %v, %v; want %T %v", txt, got, got, err, g, g)
				}
				t.Trace()
			})
			// rings that are not closed are closed by reading
			c.Enum("open rings", n2, func(i int64, t *T) {
				s := sh2[i]
				if s.kind < 4 {
					return
				}
				g := s.build(cntSeq())
				open := cloneGeom(g)
				switch o := open.(type) {
				case geo.Polygon:
					for k := range o {
						o[k] = o[k][:len(o[k])-1]
					}
				case geo.PolygonZ:
					for k := range o {
						o[k] = o[k][:len(o[k])-1]
					}
				case geo.MultiPolygon:
					for _, p := range o {
						for k := range p {
							p[k] = p[k][:len(p[k])-1]
						}
					}
				case geo.MultiPolygonZ:
					for _, p := range o {
						for k := range p {
							p[k] = p[k][:len(p[k])-1]
						}
					}
				}
				txt := wktText(open, wktStyle{}, false)
				t.Desc(func() string { return txt })
				got, err := decodeWKT(t, txt)
				if err != nil || !sameGeom(got, g) {
					t.Failf("open", "Decode(%q) = %T %v, %v; want %T %v", txt, got, got, err, g, g)
				}
				t.Trace()
			})
		}})

	// ------------------------------------------------------------ W02
	register(&Prop{ID: "W02", Rule: "every sequence of tokens up to a length behind every keyword, and every single-token deletion, insertion and replacement of valid texts, judged by an independent strict reader and a list of certain errors",
		Assum: []string{"lenient readings of text that is neither strictly valid nor certainly malformed (redundant parentheses, missing commas between groups, text around the geometry) are left open, except that they may not panic"}, Run: func(c *Ctx) {
			judge := func(t *T, s string) {
				t.Desc(func() string { return fmt.Sprintf("%q", s) })
				g, err := decodeWKT(t, s)
				if ref, e := wktParse(s); e == nil {
					want, ok := closeRings(ref)
					if !ok {
						return // a ring of a single point
					}
					t.Out("valid")
					if err != nil || !sameGeom(g, want) {
						t.Failf("valid", "Decode(%q) = %T %v, %v; want %T %v", s, g, g, err, want, want)
					}
				} else if wktMalformed(s) {
					t.Out("malformed")
					if err == nil {
						t.Failf("malformed", "Decode(%q) = %T %v without an error", s, g, g)
					}
				} else {
					t.Out("left open")
				}
				t.Trace()
			}
			tok := []string{"(", ")", ",", " ", "1", "-2.5"}
			nt := len(tok)
			for n := 0; n <= Pick(c, 6, 8); n++ {
				n := n
				tot := Pow(nt, n)
				c.Enum(fmt.Sprintf("%d tokens in parentheses", n), tot*int64(len(wktKw)), func(i int64, t *T) {
					var b strings.Builder
					b.WriteString(wktKw[i/tot])
					b.WriteString("(")
					for _, k := range Digits(i%tot, nt, n, nil) {
						b.WriteString(tok[k])
					}
					b.WriteString(")")
					judge(t, b.String())
				})
			}
			tok2 := []string{"POINT", "POLYGON", "X", "point", "(", ")", ",", " ", "1", "2 3", "abc", "é", "\n", "1e999"}
			n2 := len(tok2)
			for n := 0; n <= Pick(c, 4, 5); n++ {
				n := n
				c.Enum(fmt.Sprintf("any %d tokens", n), Pow(n2, n), func(i int64, t *T) {
					var b strings.Builder
					for _, k := range Digits(i, n2, n, nil) {
						b.WriteString(tok2[k])
					}
					judge(t, b.String())
				})
			}
			// edits of valid texts
			var texts []string
			for _, s := range gshapes(3, 2, 2) {
				g := s.build(cntSeq())
				texts = append(texts, wktText(g, wktStyle{}, false))
			}
			// every position with its own number of coordinates: parts that are fine
			// one by one, but of different dimension
			var mixed []string
			for _, kw := range wktKw {
				depth := map[string]int{"POINT": 0, "LINESTRING": 1, "MULTIPOINT": 1, "MULTILINESTRING": 2, "POLYGON": 2, "MULTIPOLYGON": 3}[kw]
				// the numbers of children of every level; the leaves are positions
				var grow func(d int) []string
				grow = func(d int) []string {
					if d == 0 {
						return []string{"#"}
					}
					sub, most := grow(d-1), 3
					if d == 3 {
						most = 2
					}
					var out []string
					for n := 1; n <= most; n++ {
						for i := int64(0); i < Pow(len(sub), n); i++ {
							var parts []string
							for _, k := range Digits(i, len(sub), n, nil) {
								if p := sub[k]; d > 1 || kw == "MULTIPOINT" {
									parts = append(parts, "("+p+")")
								} else {
									parts = append(parts, p)
								}
							}
							out = append(out, strings.Join(parts, ","))
						}
					}
					return out
				}
				for _, f := range grow(depth) {
					if strings.Count(f, "#") <= Pick(c, 6, 8) {
						mixed = append(mixed, kw+"("+f+")")
					}
				}
			}
			pos := []string{"1 2", "3 4 5", "7"}
			for _, f := range mixed {
				f := f
				n := strings.Count(f, "#")
				c.Enum("dimensions in "+f, Pow(len(pos), n), func(i int64, t *T) {
					s := f
					for _, k := range Digits(i, len(pos), n, nil) {
						s = strings.Replace(s, "#", pos[k], 1)
					}
					judge(t, s)
				})
			}
			ins := []string{"", "(", ")", ",", " ", "1", "x", "-", ".", "1 2", "((", "))", "é", "E", "Z", "\x00", ",1"}
			type edit struct{ txt, at, del, ins int }
			var offs []int64
			var tot int64
			for _, s := range texts {
				offs = append(offs, tot)
				tot += int64((len(s) + 1) * 3 * len(ins))
			}
			c.Enum("edits of valid texts", tot, func(i int64, t *T) {
				k := 0
				for k+1 < len(offs) && offs[k+1] <= i {
					k++
				}
				s := texts[k]
				d := Radix(i-offs[k], []int{len(s) + 1, 3, len(ins)}, nil)
				at, del := d[0], d[1]
				e := min(len(s), at+del)
				judge(t, s[:at]+ins[d[2]]+s[e:])
			})
			if c.Thorough() {
				// pairs of one-character edits of short texts
				short := []string{"POINT(1 2)", "LINESTRING(1 2,3 4)", "MULTIPOINT((1 2),(3 4))", "POLYGON((1 2,3 4,5 6))", "MULTIPOLYGON(((1 2,3 4,5 6)))", "MULTILINESTRING((1 2,3 4),(5 6,7 8))"}
				for _, s := range short {
					s := s
					L := len(s) + 1
					ni := 8
					c.Enum("two edits of "+s, int64(L*L*ni*ni*4), func(i int64, t *T) {
						d := Radix(i, []int{L, L, ni, ni, 2, 2}, nil)
						x := s
						for k := 1; k >= 0; k-- {
							at := min(d[k], len(x))
							e := min(len(x), at+d[4+k])
							x = x[:at] + ins[d[2+k]] + x[e:]
						}
						judge(t, x)
					})
				}
			}
		}})

	// ------------------------------------------------------------ J01
	register(&Prop{ID: "J01", Rule: "every combination of geometry type, dimension and numbers of parts, holes and points up to a bound, with coordinate values from a list of extreme and ordinary numbers; the JSON is read by an independent decoder",
		Assum: []string{"coordinates are finite; every part has at least one point", "UnmarshalGeo of Multi* types is documented as not supported: it must return an error or the right geometry"}, Run: func(c *Ctx) {
			sh := withOpen(gshapes(Pick(c, 3, 4), 3, Pick(c, 2, 3)))
			n := int64(len(sh))
			trip := func(t *T, s gshape, g geo.Geometry) {
				t.Desc(func() string { return fmt.Sprint(s, " ", g) })
				b, err := geojson.MarshalGeo(g)
				t.ops++
				if err != nil {
					t.Failf("marshal", "MarshalGeo(%v): %v", g, err)
				}
				m := parseJSON(t, b)
				checkGeomJSON(t, "MarshalGeo", m, g)
				for k := range m {
					if k != "type" && k != "coordinates" {
						t.Failf("member", "MarshalGeo(%v) = %s", g, b)
					}
				}
				var gj geojson.GeoJson
				if err := json.Unmarshal(b, &gj); err != nil {
					t.Failf("unmarshal", "%s: %v", b, err)
				}
				back, err := geojson.UnmarshalGeo(&gj)
				t.ops++
				multi := s.kind == 1 || s.kind == 3 || s.kind == 5
				if multi && err != nil {
					if back != nil {
						t.Failf("multi", "UnmarshalGeo(%s) = %v and %v", b, back, err)
					}
				} else if err != nil || !sameGeom(back, g) {
					t.Failf("round-trip", "UnmarshalGeo(%s) = %T %v, %v; want %T %v", b, back, back, err, g, g)
				}
				// the parts of the encoder
				ty, co := coordsOf(g)
				_ = ty
				var part interface{}
				switch {
				case s.kind == 0 && !s.z:
					part, err = geojson.ConvertPoi(g.(geo.Point))
				case s.kind == 0:
					part, err = geojson.ConvertPoiZ(g.(geo.PointZ))
				case (s.kind == 1 || s.kind == 2) && !s.z:
					part, err = geojson.ConvertPoiSet(g)
				case s.kind == 1 || s.kind == 2:
					part, err = geojson.ConvertPoiZSet(g)
				case (s.kind == 3 || s.kind == 4) && !s.z:
					part, err = geojson.ConvertPathSet(g)
				case s.kind == 3 || s.kind == 4:
					part, err = geojson.ConvertPathZSet(g)
				case !s.z:
					part, err = geojson.ConvertPolygonSet(g)
				default:
					part, err = geojson.ConvertPolygonZSet(g)
				}
				t.ops++
				if err != nil || fmt.Sprint(part) != fmt.Sprint(co) {
					t.Failf("convert", "conversion of %v = %v, %v", g, part, err)
				}
				t.Trace()
			}
			c.Enum("converters and the types they do not handle", n*6, func(i int64, t *T) {
				s, k := sh[i%n], int(i/n)
				g := s.build(cntSeq())
				t.Desc(func() string { return fmt.Sprint(s, " ", g) })
				if s.kind > 0 && (s.kind-1)/2 == k/2 && s.z == (k%2 == 1) {
					return
				}
				var part interface{}
				var size int
				var err error
				switch k {
				case 0:
					r, e := geojson.ConvertPoiSet(g)
					part, size, err = r, len(r), e
				case 1:
					r, e := geojson.ConvertPoiZSet(g)
					part, size, err = r, len(r), e
				case 2:
					r, e := geojson.ConvertPathSet(g)
					part, size, err = r, len(r), e
				case 3:
					r, e := geojson.ConvertPathZSet(g)
					part, size, err = r, len(r), e
				case 4:
					r, e := geojson.ConvertPolygonSet(g)
					part, size, err = r, len(r), e
				case 5:
					r, e := geojson.ConvertPolygonZSet(g)
					part, size, err = r, len(r), e
				}
				t.ops++
				if err == nil || size != 0 {
					t.Failf("refuse", "converter %d of %T %v = %v, %v", k, g, g, part, err)
				}
				t.Out("refused")
			})
			c.Enum("round trip", n*int64(len(coordVals)+1), func(i int64, t *T) {
				s, v := sh[i%n], int(i/n)
				next := cntSeq()
				if v > 0 {
					next = valSeq(v-1, 1+v%3*4)
				}
				trip(t, s, s.build(next))
			})
			codecExtra(c, trip)
		}})

	// ------------------------------------------------------------ J02
	register(&Prop{ID: "J02", Rule: "every JSON value up to a bounded size as coordinates of every type, judged by the grammar of GeoJSON positions, plus every single-place corruption of valid coordinates",
		Assum: []string{"empty lists of positions may be accepted or not"}, Run: func(c *Ctx) {
			types := []string{"Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection", "", "point", "Foo"}
			judge := func(t *T, ty string, co interface{}) {
				gj := &geojson.GeoJson{Type: ty, Coordinates: co}
				t.Desc(func() string { b, _ := json.Marshal(gj); return string(b) })
				g, err := geojson.UnmarshalGeo(gj)
				t.ops++
				if (err == nil) == (g == nil) {
					t.Failf("neither", "UnmarshalGeo(%s %v) = %v, %v", ty, co, g, err)
				}
				verdict := 0 // 1 valid, -1 malformed, 0 open
				switch ty {
				case "Point":
					verdict = -1
					if _, ok := validPos(co); ok {
						verdict = 1
					}
				case "LineString":
					if d := validPath(co); d < 0 {
						verdict = -1
					} else if d > 0 {
						verdict = 1
					}
				case "Polygon":
					if d, empty := validPaths(co); d < 0 {
						verdict = -1
					} else if !empty {
						verdict = 1
					}
				case "", "point", "Foo":
					verdict = -1
				}
				switch {
				case verdict == 1:
					t.Out("valid")
					if err != nil {
						t.Failf("valid", "UnmarshalGeo(%s %v): %v", ty, co, err)
					}
					wt, wc := coordsOf(g)
					if wt != ty || !reflect.DeepEqual(wc, co) {
						t.Failf("valid", "UnmarshalGeo(%s %v) = %T %v", ty, co, g, g)
					}
				case verdict == -1:
					t.Out("malformed")
					if err == nil {
						t.Failf("malformed", "UnmarshalGeo(%s %v) = %T %v without an error", ty, co, g, g)
					}
				default:
					t.Out("left open")
				}
				t.Trace()
			}
			leaves := jsonLeaves()
			nl := len(leaves)
			// flat lists
			for n := 0; n <= 4; n++ {
				n := n
				tot := Pow(nl, n)
				c.Enum(fmt.Sprintf("lists of %d values", n), tot*int64(len(types)), func(i int64, t *T) {
					l := []interface{}{}
					for _, k := range Digits(i%tot, nl, n, nil) {
						l = append(l, leaves[k])
					}
					judge(t, types[i/tot], l)
				})
			}
			// lists of up to 3 elements, each a leaf or a list of up to 3 numbers or leaves
			var elems []interface{}
			elems = append(elems, leaves...)
			for n := 1; n <= 4; n++ {
				l := []interface{}{}
				for k := 0; k < n; k++ {
					l = append(l, float64(k)+0.5)
				}
				elems = append(elems, l)
				for k := 0; k < n; k++ {
					for _, b := range []interface{}{nil, "1", []interface{}{1.0, 2.0}} {
						m := append([]interface{}{}, l...)
						m[k] = b
						elems = append(elems, m)
					}
				}
			}
			ne := len(elems)
			for n := 1; n <= Pick(c, 3, 4); n++ {
				n := n
				tot := Pow(ne, n)
				c.Enum(fmt.Sprintf("lists of %d positions or other values", n), tot*3, func(i int64, t *T) {
					l := []interface{}{}
					for _, k := range Digits(i%tot, ne, n, nil) {
						l = append(l, elems[k])
					}
					switch i / tot {
					case 0:
						judge(t, "LineString", l)
					case 1:
						judge(t, "Polygon", []interface{}{l})
					case 2:
						judge(t, "Polygon", []interface{}{[]interface{}{[]interface{}{0.0, 1.0}, []interface{}{3.0, 1.0}, []interface{}{0.0, 7.0}}, l})
					}
				})
			}
			c.Enum("not lists", int64(nl*len(types))+1, func(i int64, t *T) {
				if i == int64(nl*len(types)) {
					t.Desc(func() string { return "nil" })
					if g, err := geojson.UnmarshalGeo(nil); err == nil || g != nil {
						t.Failf("nil", "UnmarshalGeo(nil) = %v, %v", g, err)
					}
					return
				}
				judge(t, types[int(i)/nl], leaves[int(i)%nl])
			})
			// corruption of one place in valid coordinates
			sh := gshapes(4, 3, 1)
			c.Enum("one place corrupted", int64(len(sh)*60*nl), func(i int64, t *T) {
				d := Radix(i, []int{len(sh), 60, nl}, nil)
				s := sh[d[0]]
				if s.kind != 0 && s.kind != 2 && s.kind != 4 {
					return
				}
				ty, co := coordsOf(s.build(cntSeq()))
				k := d[1]
				var walk func(v interface{}) interface{}
				walk = func(v interface{}) interface{} {
					k--
					if k == -1 {
						return leaves[d[2]]
					}
					if l, ok := v.([]interface{}); ok {
						r := []interface{}{}
						for _, x := range l {
							r = append(r, walk(x))
						}
						return r
					}
					return v
				}
				co = walk(co)
				if k >= 0 {
					return
				}
				judge(t, ty, co)
			})
			// long lists, one place corrupted
			ln := Pick(c, []int{5, 17, 33, 65, 129, 257, 1025}, []int{5, 9, 17, 33, 64, 65, 66, 100, 128, 129, 257, 500, 513, 1025, 4097})
			lbad := []interface{}{[]interface{}{1.5}, []interface{}{1.5, "2"}, []interface{}{}, nil, 7.0, []interface{}{1.5, 2.5, 3.5}, []interface{}{1.5, nil}, []interface{}{1.5, 2.5}}
			lrad := []int{len(ln), 3, 2, len(lbad), 7}
			c.Enum("long lists, one place corrupted", Product(lrad), func(i int64, t *T) {
				d := Radix(i, lrad, nil)
				n, dim := ln[d[0]], 2+d[2]
				at := []int{0, 1, n / 4, n / 2, n - 3, n - 2, n - 1}[d[4]]
				pos := func(k int) interface{} {
					return []interface{}{float64(k), float64(k*k%101) + 0.5, -float64(k)}[:dim]
				}
				var l []interface{}
				switch d[1] {
				case 0, 1: // one long list
					for k := 0; k < n; k++ {
						l = append(l, pos(k))
					}
					l[at] = lbad[d[3]]
					if d[1] == 0 {
						judge(t, "LineString", l)
					} else {
						judge(t, "Polygon", []interface{}{l})
					}
				case 2: // many short rings
					for k := 0; k < n; k++ {
						r := []interface{}{pos(k), pos(k + 1), pos(k + 2), pos(k)}
						if k == at {
							r[k%4] = lbad[d[3]]
						}
						l = append(l, r)
					}
					judge(t, "Polygon", l)
				}
			})
			// MarshalGeo of something else
			c.Enum("unsupported geometries", 2, func(i int64, t *T) {
				g := []geo.Geometry{geo.Collection{}, nil}[i]
				t.Desc(func() string { return fmt.Sprint(g) })
				b, err := geojson.MarshalGeo(g)
				t.ops++
				if err == nil {
					t.Failf("unsupported", "MarshalGeo(%v) = %s", g, b)
				}
				t.Trace()
			})
		}})

	registerFeatures()
}
