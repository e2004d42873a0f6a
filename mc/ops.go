package main

// Catalogue of operations of the library with arguments, shared by the purity check (C01) and the
// concurrency check (C02). An operation is called with arguments out of a pool (shared between the
// operations of a run) or private to it; its outcome is a string that describes everything it
// returned (and, for operations that edit their first argument, that argument afterwards).

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"
)

type Op struct {
	Name string
	Args []interface{} // "@name": from the pool, "~name": a private copy, otherwise the value itself
	Fn   reflect.Value
	Edit bool // edits its first argument (private)
	// NoEditCheck: left out where arguments are edited in place between calls
	NoEditCheck bool
	// Twin: like another operation of the same function, with other values of the same shape
	Twin bool
	// NoRes: the result may hold generated ids
	Res func(out []reflect.Value) string
}

// Pool holds the shared arguments of a run.
type Pool struct{ v map[string]interface{} }

func NewPool() *Pool { return &Pool{v: map[string]interface{}{}} }

func (p *Pool) get(name string) interface{} {
	if x, ok := p.v[name]; ok {
		return x
	}
	x := makeArg(name)
	p.v[name] = x
	return x
}

// Snap describes all shared arguments made so far, with the spare capacity of slices. Trees are
// described by what they answer.
func (p *Pool) Snap() string {
	var b strings.Builder
	for _, k := range sortedKeys(p.v) {
		b.WriteString(k)
		b.WriteByte('=')
		b.WriteString(describe(p.v[k], true))
		b.WriteByte('\n')
	}
	return b.String()
}

// RawSnap is Snap with trees described by their memory.
func (p *Pool) RawSnap() string {
	var b strings.Builder
	for _, k := range sortedKeys(p.v) {
		b.WriteString(k)
		b.WriteByte('=')
		b.WriteString(canon(p.v[k], false, true))
		b.WriteByte('\n')
	}
	return b.String()
}

func describe(x interface{}, exact bool) string {
	switch t := x.(type) {
	case *geo.Rtree:
		return describeTree(t)
	case nil:
		return "nil"
	}
	return canon(x, false, exact)
}

func describeTree(t *geo.Rtree) string {
	if t == nil {
		return "no tree"
	}
	var ids []string
	for _, s := range t.SearchIntersect(geo.NewBox(-1e9, -1e9, 1e9, 1e9)) {
		ids = append(ids, s.ID+canon(s.Geom, false, false)+canon(s.Properties, false, false))
	}
	sortStrings(ids)
	return fmt.Sprint(t.Size(), ids)
}

func describeIDs(s []geo.Spatial) string {
	var b strings.Builder
	for _, o := range s {
		b.WriteString(canon(o, false, false))
		b.WriteByte(';')
	}
	return b.String()
}

func resultString(out []reflect.Value) string {
	var b strings.Builder
	for _, v := range out {
		if t, ok := v.Interface().(*geo.Rtree); ok {
			b.WriteString(describeTree(t))
		} else {
			b.WriteString(canon(v.Interface(), false, false))
		}
		b.WriteByte(';')
	}
	return b.String()
}

// Bound is an operation with its arguments.
type Bound struct {
	op  *Op
	in  []reflect.Value
	out []reflect.Value
}

func (o *Op) Bind(p *Pool) *Bound {
	b := &Bound{op: o}
	ft := o.Fn.Type()
	for i, a := range o.Args {
		if s, ok := a.(string); ok && len(s) > 1 && s[0] == '@' {
			a = p.get(s[1:])
		} else if ok && len(s) > 1 && s[0] == '~' {
			a = makeArg(s[1:])
		}
		t := ft.In(i)
		switch {
		case a == nil:
			b.in = append(b.in, reflect.Zero(t))
		case reflect.TypeOf(a).ConvertibleTo(t) && t.Kind() != reflect.Interface:
			b.in = append(b.in, reflect.ValueOf(a).Convert(t))
		default:
			b.in = append(b.in, reflect.ValueOf(a))
		}
	}
	return b
}

func (b *Bound) Call() {
	ft := b.op.Fn.Type()
	if ft.IsVariadic() && len(b.in) == ft.NumIn() {
		b.out = b.op.Fn.CallSlice(b.in)
	} else {
		b.out = b.op.Fn.Call(b.in)
	}
}

// Outcome describes what the call returned.
func (b *Bound) Outcome() string {
	var s string
	if b.op.Res != nil {
		s = b.op.Res(b.out)
	} else {
		s = resultString(b.out)
	}
	if b.op.Edit {
		if t, ok := b.in[0].Interface().(*geo.Rtree); ok {
			return s + " tree " + describeTree(t)
		}
		return s + " edited " + canon(b.in[0].Interface(), false, false)
	}
	return s
}

// Raw describes the returned values with the spare capacity of slices (trees left out).
func (b *Bound) Raw() string {
	var s strings.Builder
	for _, v := range b.out {
		if _, ok := v.Interface().(*geo.Rtree); ok {
			continue
		}
		s.WriteString(canon(v.Interface(), false, true))
		s.WriteByte(';')
	}
	return s.String()
}

// ------------------------------------------------------------------ arguments

func spare(p []geo.Point) []geo.Point {
	r := make([]geo.Point, len(p)+14)
	copy(r, p)
	for i := len(p); i < len(r); i++ {
		r[i] = geo.Point{X: 7777, Y: float64(i)}
	}
	return r[:len(p)]
}

func spareZ(p []geo.PointZ) []geo.PointZ {
	r := make([]geo.PointZ, len(p)+14)
	copy(r, p)
	for i := len(p); i < len(r); i++ {
		r[i] = geo.PointZ{X: 7777, Y: float64(i), Z: 1}
	}
	return r[:len(p)]
}

func spareRings(r ...[]geo.Point) geo.Polygon {
	p := make(geo.Polygon, len(r)+2)
	for i := range r {
		p[i] = geo.LinearRing(spare(r[i]))
	}
	p[len(r)] = geo.LinearRing{{X: 7777}}
	return p[:len(r)]
}

func spareRingsZ(r ...[]geo.Point) geo.PolygonZ {
	p := make(geo.PolygonZ, len(r)+2)
	for i := range r {
		p[i] = geo.LinearRingZ(spareZ(opZ(r[i])))
	}
	p[len(r)] = geo.LinearRingZ{{X: 7777}}
	return p[:len(r)]
}

func opZ(p []geo.Point) (r []geo.PointZ) {
	for i, v := range p {
		r = append(r, geo.PointZ{X: v.X, Y: v.Y, Z: float64(i*i%5) - 1})
	}
	return
}

func opPts(v ...float64) (r []geo.Point) {
	for i := 0; i+1 < len(v); i += 2 {
		r = append(r, geo.Point{X: v[i], Y: v[i+1]})
	}
	return
}

var (
	opSquare  = opPts(0, 0, 10, 0, 10, 10, 0, 10, 0, 0)
	opSquareC = opPts(0, 0, 0, 10, 10, 10, 10, 0, 0, 0) // clockwise
	opHole    = opPts(2, 2, 2, 4, 4, 4, 4, 2, 2, 2)
	opHole2   = opPts(6, 6, 8, 6, 7, 8, 6, 6)
	opConcave = opPts(0, 0, 10, 0, 10, 3, 3, 3, 3, 7, 10, 7, 10, 10, 0, 10, 0, 0)
	opBow     = opPts(0, 0, 6, 6, 6, 0, 0, 6, 0, 0)
	opLonlat  = opPts(113.2, 23.0, 113.45, 23.05, 113.4, 23.2, 113.25, 23.18, 113.2, 23.0)
)

// many gives n scattered points, some repeated.
func opMany(n int) (r []geo.Point) {
	for i := 0; i < n; i++ {
		k := i
		if i%9 == 8 {
			k = i - 3
		}
		r = append(r, geo.Point{X: float64(k*37%23) - 5, Y: float64(k*53%19) - 4})
	}
	return
}

func opWave(n int) (r []geo.Point) {
	for i := 0; i < n; i++ {
		r = append(r, geo.Point{X: float64(i) * 0.5, Y: float64(i*i*7%11) * 0.25})
	}
	return
}

func opObjs(n int) (r []geo.Spatial) {
	for i := 0; i < n; i++ {
		x, y := float64(i*37%23), float64(i*53%19)
		var g geo.Geometry = geo.Point{X: x, Y: y}
		switch i % 4 {
		case 1:
			g = geo.LineString(spare(opPts(x, y, x+2, y+1)))
		case 2:
			g = spareRings(opPts(x, y, x+1, y, x+1, y+1, x, y))
		case 3:
			g = geo.MultiPoint(spare(opPts(x, y, x-1, y+1)))
		}
		id := fmt.Sprint("o", i)
		if i%5 == 4 {
			id = fmt.Sprint("o", i-1)
		}
		r = append(r, geo.Spatial{ID: id, Properties: map[string]interface{}{"n": i}, Geom: g})
	}
	return
}

func opFeature(g geo.Geometry) *geojson.Feature {
	f := geojson.NewFeature(g)
	f.ID = "f"
	f.SetProperty("a", 1)
	f.SetProperty("b", "x")
	f.SetProperty("c", 2.5)
	f.SetProperty("d", true)
	return f
}

// perturb gives x other contents of the same shape: the inner points of lists with the first and the
// last as they were, of short lists the last point, and some part of everything else.
func perturb(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && perturb(v.Elem())
	case reflect.Slice:
		n := v.Len()
		switch e := v.Type().Elem(); {
		case n == 0:
			return false
		case e == reflect.TypeOf(geo.Point{}) || e == reflect.TypeOf(geo.PointZ{}):
			if n < 3 {
				return perturb(v.Index(n - 1))
			}
			for i := 1; i < n-1; i++ {
				perturb(v.Index(i))
			}
			return true
		case e.Kind() == reflect.Interface:
			for i := 0; i < n; i++ {
				x := reflect.New(v.Index(i).Elem().Type()).Elem()
				x.Set(v.Index(i).Elem())
				if !perturb(x) {
					return false
				}
				v.Index(i).Set(x)
			}
			return true
		}
		for i := 0; i < n; i++ {
			if !perturb(v.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		switch x := v.Addr().Interface().(type) {
		case *geo.Point:
			x.X, x.Y = x.X+0.25, x.Y-0.125
		case *geo.PointZ:
			x.X, x.Y, x.Z = x.X+0.25, x.Y-0.125, x.Z+1
		case *geo.Vector2:
			x.Y++
		case *geo.Box:
			x.MaxY++
		case *geo.LineSegment:
			x.End.Y++
		case *geo.Spatial:
			g := reflect.New(reflect.TypeOf(x.Geom)).Elem()
			g.Set(reflect.ValueOf(x.Geom))
			ok := perturb(g)
			x.Geom = g.Interface().(geo.Geometry)
			return ok
		default:
			return false
		}
		return true
	}
	return false
}

// twin is argument name with other contents, or nil.
func twin(name string) interface{} {
	v := reflect.ValueOf(makeArg(name))
	x := reflect.New(v.Type()).Elem()
	x.Set(v)
	if !perturb(x) {
		return nil
	}
	return x.Interface()
}

// together tells whether the pair belongs to the pairs of operations: twins go with the operations
// of the same function.
func together(a, b *Op) bool { return !a.Twin && !b.Twin || a.fn() == b.fn() }

func (o *Op) fn() string { return o.Name[:strings.Index(o.Name, "(")] }

func makeArg(name string) interface{} {
	if n := len(name) - 1; name[n] == '\'' {
		return twin(name[:n])
	}
	switch name {
	case "pt", "pIn":
		return geo.Point{X: 5.25, Y: 4.5}
	case "pOut":
		return geo.Point{X: 12, Y: -3}
	case "pEdge":
		return geo.Point{X: 10, Y: 5}
	case "pHole":
		return geo.Point{X: 3, Y: 3}
	case "gz":
		return geo.Point{X: 113.324, Y: 23.106}
	case "bj":
		return geo.Point{X: 116.39, Y: 39.9}
	case "z1":
		return geo.PointZ{X: 1, Y: 2, Z: 3}
	case "z2":
		return geo.PointZ{X: 4, Y: -2, Z: 8}
	case "line":
		return geo.LineString(spare(opPts(1, 1, 4, 5, 7, 2, 12, 6, 9, 9)))
	case "line2":
		return geo.LineString(spare(opPts(0, 8, 5, 1, 11, 3)))
	case "lineClosed":
		return geo.LineString(spare(opHole))
	case "lineLL":
		return geo.LineString(spare(opPts(113.1, 23, 113.3, 23.2, 113.5, 23.1)))
	case "line2LL":
		return geo.LineString(spare(opPts(113.2, 23.1, 113.4, 23.0, 113.6, 23.3, 113.7, 23)))
	case "wave":
		return geo.LineString(spare(opWave(24)))
	case "linez", "linezMut":
		return geo.LineStringZ(spareZ(opZ(opPts(1, 1, 4, 5, 7, 2))))
	case "ring":
		return geo.LinearRing(spare(opSquare))
	case "ringIn":
		return geo.LinearRing(spare(opPts(5, 5, 6, 5, 6, 5.5, 5, 5)))
	case "ringOpen":
		return geo.LinearRing(spare(opSquare[:4]))
	case "ringz":
		return geo.LinearRingZ(spareZ(opZ(opSquare)))
	case "poly":
		return spareRings(opSquare, opHole)
	case "poly2":
		return spareRings(opPts(5, 5, 15, 5, 15, 15, 5, 5))
	case "polyC":
		return spareRings(opSquareC, opHole, opHole2)
	case "concave":
		return spareRings(opConcave)
	case "bow":
		return spareRings(opBow)
	case "polyLL":
		return spareRings(opLonlat)
	case "polyLLr":
		r := clonePts(opLonlat)
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
		return spareRings(r)
	case "polyz":
		return spareRingsZ(opSquare, opHole)
	case "mp":
		return geo.MultiPoint(spare(opMany(7)))
	case "mpz":
		return geo.MultiPointZ(spareZ(opZ(opMany(6))))
	case "ml":
		r := make(geo.MultiLineString, 3)
		r[0], r[1], r[2] = geo.LineString(spare(opPts(1, 1, 2, 3))), geo.LineString(spare(opPts(4, 4, 5, 9, 7, 7))), geo.LineString{{X: 7777}}
		return r[:2]
	case "mlz":
		return geo.MultiLineStringZ{geo.LineStringZ(spareZ(opZ(opPts(1, 1, 2, 3)))), geo.LineStringZ(spareZ(opZ(opPts(4, 4, 5, 9, 7, 7))))}
	case "mpoly":
		r := make(geo.MultiPolygon, 3)
		r[0], r[1], r[2] = spareRings(opSquare, opHole), spareRings(opPts(20, 20, 25, 20, 25, 26, 20, 20)), geo.Polygon{}
		return r[:2]
	case "mpolyz":
		return geo.MultiPolygonZ{spareRingsZ(opSquare, opHole), spareRingsZ(opPts(20, 20, 25, 20, 25, 26, 20, 20))}
	case "coll":
		return geo.Collection{geo.Point{X: 30, Y: 1}, geo.LineString(spare(opPts(1, 1, 2, 3))), spareRings(opSquare)}
	case "pts5":
		return spare(opMany(5))
	case "pts12":
		return spare(opMany(12))
	case "pts25":
		return spare(opMany(25))
	case "ptsz":
		return spareZ(opZ(opMany(6)))
	case "box":
		return geo.NewBox(1, 2, 8, 9)
	case "box2":
		return geo.NewBox(4, 4, 14, 6)
	case "seg":
		return geo.LineSegment{Start: geo.Point{X: -1, Y: 5}, End: geo.Point{X: 11, Y: 6}}
	case "seg2":
		return geo.LineSegment{Start: geo.Point{X: 2, Y: 0}, End: geo.Point{X: 6, Y: 9}}
	case "vec":
		return &geo.Vector2{X: 3, Y: 4}
	case "vec2":
		return geo.Vector2{X: -1, Y: 2}
	case "objs6":
		return spareObjs(opObjs(6))
	case "objs30":
		return spareObjs(opObjs(30))
	case "geoms12":
		var g []geo.Geometry
		for _, o := range opObjs(12) {
			g = append(g, o.Geom)
		}
		return g
	case "obj3":
		return opObjs(4)[3]
	case "obj17":
		return opObjs(18)[17]
	case "objNew":
		return geo.Spatial{ID: "new", Properties: []int{1}, Geom: spareRings(opHole)}
	case "tree":
		return geo.NewMinMaxTree(2, 4, opObjs(24)...)
	case "treeB":
		t := geo.NewMinMaxTree(2, 5)
		for _, o := range opObjs(17) {
			t.Insert(o)
		}
		return t
	case "treeEmpty":
		return geo.NewTree()
	case "fPoly":
		return opFeature(spareRings(opSquare, opHole))
	case "fPt":
		return opFeature(geo.Point{X: 1, Y: 2})
	case "fc":
		fc := geojson.NewFeatureCollection()
		fc.AddFeature(opFeature(geo.Point{X: 1, Y: 2})).AddFeature(opFeature(spareRings(opSquare)))
		return fc
	case "bbox":
		return append(make([]float64, 0, 9), -5, -6, 7, 8)
	case "gjPoly":
		return unGJ(`{"type":"Polygon","coordinates":[[[0,0],[10,0],[10,10],[0,0]],[[2,1],[3,1],[3,2],[2,1]]]}`)
	case "gjLineZ":
		return unGJ(`{"type":"LineString","coordinates":[[0,0,1],[10,0,2],[10,10,3]]}`)
	case "gjPt":
		return unGJ(`{"type":"Point","coordinates":[3.5,-1]}`)
	case "gjBad":
		return unGJ(`{"type":"LineString","coordinates":[[0,"x"]]}`)
	case "jsonF":
		return []byte(`{"type":"Feature","id":1,"geometry":{"type":"Point","coordinates":[1,2]},"properties":{"a":[1,{"b":2}]}}`)
	case "jsonF2":
		return []byte(`{"type":"Feature","id":1,"geometry":{"type":"Point","coordinates":[1,3]},"properties":{"a":[1,{"b":3}]}}`)
	case "gjPoly2":
		return unGJ(`{"type":"Polygon","coordinates":[[[0,0],[10,0],[10,12],[0,0]],[[2,1],[3,1],[3,2],[2,1]]]}`)
	case "jsonFC":
		return []byte(`{"type":"FeatureCollection","features":[{"type":"Feature","geometry":{"type":"LineString","coordinates":[[1,2],[3,4]]},"properties":null}]}`)
	}
	panic("no argument " + name)
}

func spareObjs(o []geo.Spatial) []geo.Spatial {
	r := make([]geo.Spatial, len(o)+3)
	copy(r, o)
	for i := len(o); i < len(r); i++ {
		r[i] = geo.Spatial{ID: "spare", Geom: geo.Point{X: 7777, Y: float64(i)}}
	}
	return r[:len(o)]
}

func unGJ(s string) *geojson.GeoJson {
	g := &geojson.GeoJson{}
	if err := json.Unmarshal([]byte(s), g); err != nil {
		panic(err)
	}
	return g
}

// ------------------------------------------------------------------ the catalogue

func buildOps() []*Op {
	var ops []*Op
	names := map[string]int{}
	add := func(name string, fn interface{}, args ...interface{}) *Op {
		var as []string
		for _, a := range args {
			as = append(as, fmt.Sprint(a))
		}
		n := name + "(" + strings.Join(as, ", ") + ")"
		names[n]++
		if names[n] > 1 {
			panic("operation twice: " + n)
		}
		o := &Op{Name: n, Fn: reflect.ValueOf(fn), Args: args}
		ops = append(ops, o)
		return o
	}
	edit := func(name string, fn interface{}, args ...interface{}) *Op {
		o := add(name, fn, args...)
		o.Edit = true
		return o
	}
	// the order of the objects found is not promised
	spRes := func(out []reflect.Value) string {
		var l []string
		for _, o := range out[0].Interface().([]geo.Spatial) {
			l = append(l, canon(o, false, false))
		}
		sortStrings(l)
		return fmt.Sprint(len(l), l)
	}
	nnRes := func(out []reflect.Value) string { return describeIDs(out[0].Interface().([]geo.Spatial)) }
	setRes := func(out []reflect.Value) string {
		var l []string
		for i := 0; i < out[0].Len(); i++ {
			l = append(l, canon(out[0].Index(i).Interface(), false, false))
		}
		sortStrings(l)
		return fmt.Sprint(len(l), l)
	}
	const wgs, merc = geo.SRID_WGS84_GPS, geo.SRID_WGS84_PSEUDO_MERCATOR
	geoms2 := []string{"@pt", "@mp", "@line", "@ml", "@poly", "@polyC", "@mpoly"}
	geoms3 := []string{"@z1", "@mpz", "@linez", "@mlz", "@polyz", "@mpolyz"}
	all := append(append([]string{}, geoms2...), geoms3...)
	for _, g := range all {
		add("BoundingBox", geo.BoundingBox, g)
		add("wkt.Encode", wkt.Encode, g)
		add("MarshalGeo", geojson.MarshalGeo, g)
		add("NewFeature", geojson.NewFeature, g)
	}
	add("BoundingBox", geo.BoundingBox, "@coll")
	for _, g := range geoms2 {
		add("GetArea", geo.GetArea, g)
		add("Centroid", geo.Centroid, g)
		add("Mbr", geo.Mbr, g)
	}
	add("MultiPolyArea", geo.MultiPolyArea, "@mpoly")
	add("LinearCentroid", geo.LinearCentroid, "@ring")
	add("Area2", geo.Area2, "@pt", "@pOut", "@pEdge")
	add("Mbr", geo.Mbr, "@concave")
	add("RotateCW", geo.RotateCW, "@poly", "@pOut", 0.7)
	add("RotateCCW", geo.RotateCCW, "@polyC", "@pt", 2.1)
	add("RotateCW", geo.RotateCW, "@pt", "@pOut", 0.7)
	for _, p := range []string{"@pts5", "@pts12", "@pts25"} {
		add("ConvexHull", geo.ConvexHull, p)
		add("NewLineString", geo.NewLineString, p)
		add("NewLinearRing", geo.NewLinearRing, p)
		add("NewPolygonFromPois", geo.NewPolygonFromPois, p)
		add("NewMultiPoint", geo.NewMultiPoint, p)
	}
	add("ConvexHull", geo.ConvexHull, "@wave")
	add("NewLineStringZ", geo.NewLineStringZ, "@ptsz")
	add("NewLinearRingZ", geo.NewLinearRingZ, "@ptsz")
	add("NewPolygonZFromPois", geo.NewPolygonZFromPois, "@ptsz")
	add("NewMultiPointZ", geo.NewMultiPointZ, "@ptsz")
	add("NewRingFromLine", geo.NewRingFromLine, "@line")
	add("NewRingFromLine", geo.NewRingFromLine, "@lineClosed")
	add("NewRingFromLineZ", geo.NewRingFromLineZ, "@linez")
	add("LineString.ToRing", geo.LineString.ToRing, "@line")
	add("LineStringZ.ToRing", geo.LineStringZ.ToRing, "@linez")
	add("LinearRing.ToLineString", geo.LinearRing.ToLineString, "@ring")
	add("LinearRingZ.ToLineString", geo.LinearRingZ.ToLineString, "@ringz")
	add("SplitByIndex", geo.LineString.SplitByIndex, "@line", 2)
	add("SplitByIndex", geo.LineString.SplitByIndex, "@line", 0)
	// relations
	for _, p := range []string{"@pIn", "@pOut", "@pEdge", "@pHole"} {
		for _, g := range []string{"@poly", "@polyC", "@concave"} {
			add("IsPointInPolygon", geo.IsPointInPolygon, p, g)
		}
		add("IsPointInBox", geo.IsPointInBox, "@box", p)
		add("PointPolygonDistance", geo.PointPolygonDistance, p, "@poly", merc)
		add("PointHitLineString", geo.PointHitLineString, p, "@wave", merc)
	}
	for _, s := range []string{"@seg", "@seg2"} {
		add("SegPolyRelation", geo.SegPolyRelation, s, "@poly")
		add("SegPolyRelation", geo.SegPolyRelation, s, "@concave")
	}
	add("SegmentRelation", geo.SegmentRelation, "@seg", "@seg2")
	add("LineRelation", geo.LineRelation, "@line", "@line2")
	add("LinePolyRelation", geo.LinePolyRelation, "@line", "@poly")
	add("LinePolyRelation", geo.LinePolyRelation, "@line2", "@concave")
	add("LinearPolyRelation", geo.LinearPolyRelation, "@ringIn", "@poly")
	add("LinearPolyRelation", geo.LinearPolyRelation, "@ring", "@polyC")
	add("PolyRelation", geo.PolyRelation, "@poly", "@poly2")
	add("PolyRelation", geo.PolyRelation, "@concave", "@poly")
	add("IsPointOnLine", geo.IsPointOnLine, "@pEdge", "@line")
	add("IsPointOnSegment", geo.IsPointOnSegment, "@pt", "@pOut", "@pEdge")
	add("SelfIntersect", geo.Polygon.SelfIntersect, "@bow")
	add("SelfIntersect", geo.Polygon.SelfIntersect, "@concave")
	add("IsCCW", geo.Polygon.IsCCW, "@poly")
	add("IsCCW", geo.Polygon.IsCCW, "@polyC")
	add("Polygon.Verify", func(p geo.Polygon) error { return p.Verify() }, "@poly")
	add("Polygon.Verify", func(p geo.Polygon) error { return p.Verify() }, "@bow")
	add("LineString.Verify", geo.LineString.Verify, "@line")
	// boxes
	add("Box.Intersect", (*geo.Box).Intersect, "@box", "@box2")
	add("Box.Contain", (*geo.Box).Contain, "@box", "@box2")
	add("Box.Union", (*geo.Box).Union, "@box", "@box2")
	add("BoxUnion1", func(a *geo.Box) *geo.Box { return geo.BoxUnion(a) }, "@box")
	add("BoxUnion", func(a, b *geo.Box) *geo.Box { return geo.BoxUnion(a, b) }, "@box", "@box2")
	add("BoxUnion3", func(a, b *geo.Box) *geo.Box { return geo.BoxUnion(b, a, b) }, "@box", "@box2")
	add("Box.Size", (*geo.Box).Size, "@box")
	add("BoxToGeo", func(a *geo.Box) geo.Geometry { return geo.BoxToGeo(*a) }, "@box")
	add("NewRectBox", geo.NewRectBox, "@pt", 2.0, 3.0)
	// distances
	add("PointToSegmentDistance", geo.PointToSegmentDistance, "@pt", "@pOut", "@pEdge", merc)
	add("PointToSegmentDistance", geo.PointToSegmentDistance, "@pt", "@pOut", "@pEdge", wgs)
	add("PointToLineDistance", geo.PointToLineDistance, "@pt", "@pOut", "@pHole", merc)
	add("PointHitLineString", geo.PointHitLineString, "@gz", "@lineLL", wgs)
	add("PointPolygonDistance", geo.PointPolygonDistance, "@bj", "@polyLL", wgs)
	add("HausdorffDistance", geo.HausdorffDistance, "@line", "@line2", merc)
	add("HausdorffDistance", geo.HausdorffDistance, "@lineLL", "@line2LL", wgs)
	add("HausdorffDistance", geo.HausdorffDistance, "@wave", "@line", merc)
	add("CoordDistance", geo.CoordDistance, "@gz", "@bj")
	add("CoordGreateCircle", geo.CoordGreateCircle, "@gz", "@bj")
	add("GetAzimuth", geo.GetAzimuth, "@gz", "@bj", wgs)
	add("DestinationPoint", geo.DestinationPoint, 23.1, 113.3, 54321.0, 33.0)
	add("EuclideanDis", geo.EuclideanDis, "@pt", "@pOut")
	add("EuclideanDisZ", geo.EuclideanDisZ, "@z1", "@z2")
	add("PointDistance", geo.PointDistance, "@pt", "@pOut", merc)
	add("PointDistance", geo.PointDistance, "@gz", "@bj", wgs)
	add("Length", geo.LineString.Length, "@wave")
	add("LineString.Equal", geo.LineString.Equal, "@line", "@line2")
	add("LineStringZ.Equal", geo.LineStringZ.Equal, "@linez", "@linez")
	add("Point.Equal", geo.Point.Equal, "@pt", "@pOut")
	add("GetPoint", geo.LineString.GetPoint, "@line", 2)
	add("GetEndPoint", geo.LineString.GetEndPoint, "@line")
	add("GetFirstPoint", geo.LineString.GetFirstPoint, "@line")
	add("GetPointSet", geo.LineString.GetPointSet, "@line")
	add("GetExteriorRing", geo.Polygon.GetExteriorRing, "@poly")
	add("GetInteriorRing", geo.Polygon.GetInteriorRing, "@polyC")
	add("GetInteriorRing Z", geo.PolygonZ.GetInteriorRing, "@polyz")
	// simplification, buffers, angles, vectors
	for _, g := range []string{"@line", "@wave", "@lineClosed"} {
		add("DouglasPeuckerSimplify", geo.DouglasPeuckerSimplify, g, 0.8, merc)
	}
	add("DouglasPeuckerSimplify", geo.DouglasPeuckerSimplify, "@line2LL", 5000.0, wgs)
	add("DouglasPeuckerSimplify", geo.DouglasPeuckerSimplify, "@wave", 0.0, merc)
	add("Buffer", geo.Point.Buffer, "@pt", 2.5)
	add("Buffer", geo.Point.Buffer, "@pOut", 0.5)
	add("CacAngle", geo.CacAngle, "@pt", "@pOut", "@pHole")
	add("CacConvex", geo.CacConvex, "@pt", "@pOut", "@pHole")
	add("CacQuadrantAngle", geo.CacQuadrantAngle, "@pt", "@pOut")
	add("CacQuadrantAngle", geo.CacQuadrantAngle, "@pt", "@pt")
	add("Vector2.Cross", (*geo.Vector2).Cross, "@vec", "@vec2")
	add("Vector2.Dot", (*geo.Vector2).Dot, "@vec", "@vec2")
	add("Vector2.Clone", (*geo.Vector2).Clone, "@vec")
	add("Vector2.Length", (*geo.Vector2).Length, "@vec")
	add("Normalize", geo.Normalize, "@vec2")
	edit("Vector2.Normalize", (*geo.Vector2).Normalize, "~vec")
	edit("Vector2.Multiply", (*geo.Vector2).Multiply, "~vec", 2.5)
	// coordinates
	for _, f := range []struct {
		n string
		f interface{}
	}{{"WGS84toGCJ02", geo.WGS84toGCJ02}, {"GCJ02toWGS84", geo.GCJ02toWGS84}, {"WGS84toBD09", geo.WGS84toBD09}, {"BD09toWGS84", geo.BD09toWGS84}, {"GCJ02toBD09", geo.GCJ02toBD09}, {"BD09toGCJ02", geo.BD09toGCJ02}} {
		add(f.n, f.f, 113.324, 23.106)
		add(f.n, f.f, 2.35, 48.85)
	}
	add("FromLatLon", geo.FromLatLon, 23.106, 113.324, true)
	add("FromLatLon", geo.FromLatLon, -33.9, 18.4, false)
	add("FromLatLon", geo.FromLatLon, 60.5, 5.5, true)
	add("FromLatLon", geo.FromLatLon, 95.0, 5.5, true)
	add("ToLatLon", geo.ToLatLon, 500123.0, 4649776.0, 32, "U")
	add("ToLatLon", geo.ToLatLon, 340000.0, 6234567.0, 34, "", []bool{false})
	add("ToLatLon", geo.ToLatLon, 99.0, 4649776.0, 32, "U")
	add("GeohashEncode", geo.GeohashEncode, "@gz", uint(9), wgs)
	add("GeohashGetAllNeighbors", geo.GeohashGetAllNeighbors, "ws0e9", wgs)
	add("GeohashGetBoundary", geo.GeohashGetBoundary, "ws0e9", wgs)
	add("GeohashGetCenter", geo.GeohashGetCenter, "ws0", wgs)
	add("S2GetCellID", geo.S2GetCellID, "@gz", 14, wgs)
	id := geo.S2GetCellID(geo.Point{X: 113.3, Y: 23.1}, 13, wgs)
	add("S2GetCenter", geo.S2GetCenter, id, wgs)
	add("S2GetBoundary", geo.S2GetBoundary, id, wgs)
	add("S2GetAllNeighbors", geo.S2GetAllNeighbors, id, wgs).Res = setRes
	add("S2RegionCoverer", geo.S2RegionCoverer, "@polyLL", 6, wgs).Res = setRes
	for _, l := range []string{"@polyLL", "@polyLLr"} {
		o := add("S2RegionCoverer", geo.S2RegionCoverer, l, 11, wgs)
		o.Res, o.NoEditCheck = setRes, true // edited in place it can cover half the earth
	}
	// codecs
	for _, s := range []string{"POINT(1 2)", "MULTIPOINT(1 2,3 4)", "LINESTRING(1 2,3 4,5 6)", "MULTILINESTRING((1 2,3 4),(5 6,7 8))", "POLYGON((0 0,9 0,9 9,0 0),(2 1,3 1,3 2,2 1))", "MULTIPOLYGON(((0 0,9 0,9 9,0 0)),((20 20,21 20,21 21,20 20)))", "POINT(1 x)", "LINESTRING((1 2)"} {
		add("wkt.Decode", wkt.Decode, s)
	}
	for _, g := range []string{"@gjPoly", "@gjLineZ", "@gjPt", "@gjBad"} {
		add("UnmarshalGeo", geojson.UnmarshalGeo, g)
	}
	add("UnmarshalFeature", geojson.UnmarshalFeature, "@jsonF")
	add("UnmarshalFeatureCollection", geojson.UnmarshalFeatureCollection, "@jsonFC")
	add("Feature.MarshalJSON", func(f *geojson.Feature) ([]byte, error) { return f.MarshalJSON() }, "@fPoly")
	add("json.Marshal feature", func(f *geojson.Feature) ([]byte, error) { return json.Marshal(f) }, "@fPt")
	add("json.Marshal collection", func(f *geojson.FeatureCollection) ([]byte, error) { return json.Marshal(f) }, "@fc")
	add("PropertyInt", (*geojson.Feature).PropertyInt, "@fPt", "a")
	add("PropertyMustString", (*geojson.Feature).PropertyMustString, "@fPt", "b", []string{"z"})
	add("PropertyMustFloat64", (*geojson.Feature).PropertyMustFloat64, "@fPt", "nope", []float64{1.5})
	edit("SetProperty", (*geojson.Feature).SetProperty, "~fPt", "q", 5)
	edit("SetBoundingBox", (*geojson.Feature).SetBoundingBox, "~fPoly")
	edit("SetBoundingBox of a shared box", func(f *geojson.Feature, b []float64) { f.BoundingBox = b; f.SetBoundingBox() }, "~fPoly", "@bbox")
	edit("decode into a feature with a shared box", func(f *geojson.Feature, b []float64) error {
		f.BoundingBox = b
		g, err := geojson.UnmarshalFeature([]byte(`{"type":"Feature","geometry":null,"properties":null,"bbox":[1,2,3,4]}`))
		if err == nil {
			f.SetProperty("box", g.BoundingBox)
			f.SetBoundingBox()
		}
		return err
	}, "~fPt", "@bbox")
	edit("AddFeature", func(f *geojson.FeatureCollection, g *geojson.Feature) { f.AddFeature(g) }, "~fc", "@fPoly")
	// trees
	for _, tr := range []string{"@tree", "@treeB"} {
		add("SearchIntersect", (*geo.Rtree).SearchIntersect, tr, "@box").Res = spRes
		add("SearchIntersectWithCond", func(t *geo.Rtree, b *geo.Box) []geo.Spatial {
			return t.SearchIntersectWithCond(b, func(o ...geo.Spatial) bool { return len(o[0].ID) == 2 })
		}, tr, "@box2").Res = spRes
		add("NearestNeighbors", (*geo.Rtree).NearestNeighbors, tr, 5, "@pt").Res = nnRes
		add("NearestNeighbors", (*geo.Rtree).NearestNeighbors, tr, 2, "@pOut").Res = nnRes
		add("SearchBySpatialID", (*geo.Rtree).SearchBySpatialID, tr, "o13").Res = spRes
		add("Size", (*geo.Rtree).Size, tr)
		add("Depth", (*geo.Rtree).Depth, tr)
		add("GetAllBoundingBoxes", (*geo.Rtree).GetAllBoundingBoxes, tr).Res = setRes
		edit("Insert", (*geo.Rtree).Insert, "~"+tr[1:], "@objNew")
		edit("Delete", (*geo.Rtree).Delete, "~"+tr[1:], "@obj3")
		edit("DeleteBySpatialID", (*geo.Rtree).DeleteBySpatialID, "~"+tr[1:], "o13")
		edit("UpsertBySpatialID", func(t *geo.Rtree, o []geo.Spatial) { t.UpsertBySpatialID(o...) }, "~"+tr[1:], "@objs6")
		edit("insert and delete many", func(t *geo.Rtree, o []geo.Spatial) (r []bool) {
			for _, s := range o[:5] {
				t.Insert(s)
			}
			for _, s := range o[:3] {
				r = append(r, t.Delete(s))
			}
			return
		}, "~"+tr[1:], "@objs6")
		edit("InsertWithRandomId", func(t *geo.Rtree, g geo.Polygon) int {
			t.InsertWithRandomId(g)
			t.InsertWithRandomId(g)
			n := t.Size()
			// the generated ids differ from run to run: give the two objects fixed ones
			ids := map[string]bool{}
			for _, s := range t.SearchIntersect(geo.NewBox(4.9, 4.9, 15, 15)) {
				if p, ok := s.Geom.(geo.Polygon); ok && len(p) == 1 && len(p[0]) == 4 && p[0][1].X == 15 {
					ids[s.ID] = true
				}
			}
			for id := range ids {
				t.DeleteBySpatialID(id)
			}
			return n*100 + len(ids)
		}, "~"+tr[1:], "@poly2").NoEditCheck = true // generated ids differ
	}
	add("NewTree", geo.NewTree, "@objs6")
	add("NewTree", geo.NewTree, "@objs30")
	add("NewTreeWith", geo.NewTreeWith, "@objs30")
	add("NewMinMaxTree", func(o []geo.Spatial) *geo.Rtree { return geo.NewMinMaxTree(2, 4, o...) }, "@objs30")
	add("NewRandomIDTree", func(g []geo.Geometry) int { return geo.NewRandomIDTree(g...).Size() }, "@geoms12")
	// editing of private values
	edit("Append", func(l geo.LineString, p geo.Point) geo.LineString { l.Append(p); return l }, "~line", "@pt")
	edit("InsertPoint", func(l geo.LineString, p geo.Point) (geo.LineString, error) { e := l.InsertPoint(1, p); return l, e }, "~line", "@pt")
	edit("InsertPoint bad", func(l geo.LineString, p geo.Point) (geo.LineString, error) { e := l.InsertPoint(-1, p); return l, e }, "~line", "@pt")
	edit("DelPoint", func(l geo.LineString) (geo.LineString, error) { e := l.DelPoint(1); return l, e }, "~line")
	edit("SetPoint", func(l geo.LineString, p geo.Point) (geo.LineString, error) { e := l.SetPoint(2, p); return l, e }, "~line", "@pt")
	edit("Reverse", func(l geo.LineString) geo.LineString { l.Reverse(); return l }, "~line")
	edit("LineStringZ.Reverse", func(l geo.LineStringZ) geo.LineStringZ { l.Reverse(); return l }, "~linez")
	edit("LineStringZ.Append", func(l geo.LineStringZ, p geo.PointZ) geo.LineStringZ { l.Append(p); return l }, "~linez", "@z1")
	edit("MultiPoint.Append", func(l geo.MultiPoint, p geo.Point) geo.MultiPoint { l.Append(p); return l }, "~mp", "@pt")
	edit("AddInteriorRing", func(l geo.Polygon, p geo.LinearRing) geo.Polygon { l.AddInteriorRing(p); return l }, "~poly", "@ringIn")
	edit("SetExteriorRing", func(l geo.Polygon, p geo.LinearRing) geo.Polygon { l.SetExteriorRing(p); return l }, "~poly", "@ring")
	edit("AddPolygon", func(l geo.MultiPolygon, p geo.Polygon) geo.MultiPolygon { l.AddPolygon(p); return l }, "~mpoly", "@poly2")
	// the twins
	also := func(name string, fn interface{}, args ...interface{}) *Op {
		o := add(name, fn, args...)
		o.Twin = true
		return o
	}
	for _, o := range append([]*Op{}, ops...) {
		if o.Edit {
			continue
		}
		args := append([]interface{}{}, o.Args...)
		n := 0
		for i, a := range args {
			if s, ok := a.(string); ok && len(s) > 1 && s[0] == '@' && twin(s[1:]) != nil {
				args[i] = s + "'"
				n++
			}
		}
		if n > 0 {
			q := also(o.fn(), o.Fn.Interface(), args...)
			q.Res, q.NoEditCheck = o.Res, o.NoEditCheck
		}
	}
	also("RotateCW", geo.RotateCW, "@poly", "@pOut", 0.9)
	also("RotateCCW", geo.RotateCCW, "@polyC", "@pt", 2.3)
	also("SplitByIndex", geo.LineString.SplitByIndex, "@line", 3)
	also("NewRectBox", geo.NewRectBox, "@pt", 2.0, 4.0)
	also("DestinationPoint", geo.DestinationPoint, 23.1, 113.3, 54321.0, 133.0)
	also("DestinationPoint", geo.DestinationPoint, 23.1, -113.3, 54321.0, 33.0)
	also("GetPoint", geo.LineString.GetPoint, "@line", 1)
	also("DouglasPeuckerSimplify", geo.DouglasPeuckerSimplify, "@wave", 0.4, merc)
	also("Buffer", geo.Point.Buffer, "@pt", 2.0)
	also("FromLatLon", geo.FromLatLon, 23.106, 117.324, true)
	also("FromLatLon", geo.FromLatLon, 63.106, 113.324, true)
	also("ToLatLon", geo.ToLatLon, 500123.0, 4649776.0, 33, "U")
	also("ToLatLon", geo.ToLatLon, 500123.0, 4649776.0, 32, "K")
	also("GeohashEncode", geo.GeohashEncode, "@gz", uint(5), wgs)
	also("GeohashGetAllNeighbors", geo.GeohashGetAllNeighbors, "ws0e8", wgs)
	also("GeohashGetBoundary", geo.GeohashGetBoundary, "ws0e8", wgs)
	also("GeohashGetCenter", geo.GeohashGetCenter, "ws1", wgs)
	also("S2GetCellID", geo.S2GetCellID, "@gz", 13, wgs)
	id2 := geo.S2GetCellID(geo.Point{X: 113.4, Y: 23.2}, 13, wgs)
	also("S2GetCenter", geo.S2GetCenter, id2, wgs)
	also("S2GetBoundary", geo.S2GetBoundary, id2, wgs)
	also("S2GetAllNeighbors", geo.S2GetAllNeighbors, id2, wgs).Res = setRes
	also("S2RegionCoverer", geo.S2RegionCoverer, "@polyLL", 7, wgs).Res = setRes
	for _, s := range []string{"POINT(1 3)", "LINESTRING(1 2,3 9,5 6)", "POLYGON((0 0,9 0,9 8,0 0),(2 1,3 1,3 2,2 1))", "MULTIPOINT(1 2,3 5)"} {
		also("wkt.Decode", wkt.Decode, s)
	}
	also("UnmarshalFeature", geojson.UnmarshalFeature, "@jsonF2")
	also("UnmarshalGeo", geojson.UnmarshalGeo, "@gjPoly2")
	also("PropertyInt", (*geojson.Feature).PropertyInt, "@fPt", "c")
	also("PropertyMustString", (*geojson.Feature).PropertyMustString, "@fPt", "b", []string{"y"})
	also("PropertyMustString", (*geojson.Feature).PropertyMustString, "@fPt", "n", []string{"y"})
	also("PropertyMustFloat64", (*geojson.Feature).PropertyMustFloat64, "@fPt", "nope", []float64{2.5})
	also("SearchBySpatialID", (*geo.Rtree).SearchBySpatialID, "@tree", "o12").Res = spRes
	also("NearestNeighbors", (*geo.Rtree).NearestNeighbors, "@tree", 4, "@pt").Res = nnRes
	return ops
}
