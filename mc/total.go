package main

// T01: exported operations are total: empty, degenerate and non-finite arguments give a result
// or an error, never a panic or an endless loop.

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sync"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"
)

type totalFn struct {
	name string
	fn   reflect.Value
	args []reflect.Type
}

func totalFns() (l []totalFn) {
	add := func(name string, f interface{}) {
		v := reflect.ValueOf(f)
		t := totalFn{name: name, fn: v}
		for i := 0; i < v.Type().NumIn(); i++ {
			t.args = append(t.args, v.Type().In(i))
		}
		l = append(l, t)
	}
	add("BoundingBox", geo.BoundingBox)
	add("wkt.Encode", wkt.Encode)
	add("MarshalGeo", geojson.MarshalGeo)
	add("NewFeature+MarshalJSON", func(g geo.Geometry) ([]byte, error) { return geojson.NewFeature(g).MarshalJSON() })
	add("GetArea", geo.GetArea)
	add("Centroid", geo.Centroid)
	add("Mbr", geo.Mbr)
	add("MultiPolyArea", geo.MultiPolyArea)
	add("LinearCentroid", geo.LinearCentroid)
	add("Area2", geo.Area2)
	rot := func(f func(geo.Geometry, geo.Point, float64) geo.Geometry) interface{} {
		return func(g geo.Geometry, p geo.Point, a float64) geo.Geometry {
			if g == nil {
				return nil
			}
			return f(g, p, a)
		}
	}
	add("RotateCW", rot(geo.RotateCW))
	add("RotateCCW", rot(geo.RotateCCW))
	add("ConvexHull", func(l geo.LineString) geo.Polygon { return geo.ConvexHull(l...) })
	add("NewLineString", func(l geo.LineString) geo.LineString { return *geo.NewLineString(l...) })
	add("NewLinearRing", func(l geo.LineString) interface{} { return geo.NewLinearRing(l...) })
	add("NewPolygonFromPois", func(l geo.LineString) interface{} { return geo.NewPolygonFromPois(l...) })
	add("NewMultiPoint", func(l geo.LineString) interface{} { return geo.NewMultiPoint(l...) })
	add("NewRingFromLine", geo.NewRingFromLine)
	add("NewRingFromLineZ", geo.NewRingFromLineZ)
	add("ToRing", geo.LineString.ToRing)
	add("ToRingZ", geo.LineStringZ.ToRing)
	add("ToLineString", geo.LinearRing.ToLineString)
	add("ToLineStringZ", geo.LinearRingZ.ToLineString)
	add("IsPointInPolygon", geo.IsPointInPolygon)
	add("IsPointInBox", func(b geo.Box, p geo.Point) bool { return geo.IsPointInBox(&b, p) })
	add("PointPolygonDistance", geo.PointPolygonDistance)
	add("PointHitLineString", geo.PointHitLineString)
	add("SegPolyRelation", geo.SegPolyRelation)
	add("SegmentRelation", geo.SegmentRelation)
	add("LineRelation", geo.LineRelation)
	add("LinePolyRelation", geo.LinePolyRelation)
	add("LinearPolyRelation", geo.LinearPolyRelation)
	add("PolyRelation", geo.PolyRelation)
	add("IsPointOnLine", geo.IsPointOnLine)
	add("IsPointOnSegment", geo.IsPointOnSegment)
	add("SelfIntersect", geo.Polygon.SelfIntersect)
	add("IsCCW", geo.Polygon.IsCCW)
	add("Polygon.Verify", func(p geo.Polygon) error { return p.Verify() })
	add("LineString.Verify", geo.LineString.Verify)
	add("Box.Intersect", (*geo.Box).Intersect)
	add("Box.Contain", func(a, b geo.Box) bool { return a.Contain(&b) })
	add("Box.Union", func(a, b geo.Box) *geo.Box { return a.Union(&b) })
	add("Box.Size", func(a geo.Box) float64 { return a.Size() })
	add("BoxUnion", func(a, b, c geo.Box) *geo.Box { return geo.BoxUnion(&a, &b, &c) })
	add("BoxUnion of up to three", func(a, b, c geo.Box, none []bool) *geo.Box {
		// the second argument is a slice of 0, 1 or 2 values
		return geo.BoxUnion([]*geo.Box{&a, &b, &c}[:len(none)]...)
	})
	add("constructors without arguments", func(k int) interface{} {
		q := geo.NewPolygonFromPois()
		r := []interface{}{geo.NewLineString(), geo.NewLinearRing(), geo.NewPolygon(), geo.NewMultiPoint(), q, geo.NewLineStringZ(), geo.NewLinearRingZ(), geo.NewPolygonZ(), geo.NewPolygonZFromPois(), geo.ConvexHull()}
		for _, t := range []*geo.Rtree{geo.NewTree(), geo.NewTreeWith(), geo.NewRandomIDTree(), geo.NewMinMaxTree(2, 5)} {
			r = append(r, len(t.SearchIntersect(geo.NewBox(0, 0, 1, 1))), len(t.NearestNeighbors(k, geo.Point{})), t.Delete(geo.Spatial{}), t.DeleteBySpatialID(""), len(t.SearchBySpatialID("")), len(t.GetAllBoundingBoxes()), t.Size(), t.Depth())
			t.UpsertBySpatialID()
		}
		return r
	})
	add("BoxToGeo", func(a geo.Box) geo.Geometry { return geo.BoxToGeo(a) })
	add("NewRectBox", geo.NewRectBox)
	add("NewBox", geo.NewBox)
	add("PointToSegmentDistance", geo.PointToSegmentDistance)
	add("PointToLineDistance", geo.PointToLineDistance)
	add("HausdorffDistance", geo.HausdorffDistance)
	add("CoordDistance", geo.CoordDistance)
	add("CoordGreateCircle", geo.CoordGreateCircle)
	add("GetAzimuth", geo.GetAzimuth)
	add("DestinationPoint", geo.DestinationPoint)
	add("EuclideanDis", geo.EuclideanDis)
	add("EuclideanDisZ", geo.EuclideanDisZ)
	add("PointDistance", geo.PointDistance)
	add("Length", geo.LineString.Length)
	add("LineString.Equal", geo.LineString.Equal)
	add("LineStringZ.Equal", geo.LineStringZ.Equal)
	add("Polygon.GetExteriorRing", geo.Polygon.GetExteriorRing)
	add("Polygon.GetExteriorPoints", geo.Polygon.GetExteriorPoints)
	add("Polygon.GetInteriorRing", geo.Polygon.GetInteriorRing)
	add("PolygonZ.GetInteriorRing", geo.PolygonZ.GetInteriorRing)
	add("GetPoint", geo.LineString.GetPoint)
	add("GetEndPoint", geo.LineString.GetEndPoint)
	add("GetFirstPoint", geo.LineString.GetFirstPoint)
	add("InsertPoint", func(l geo.LineString, i int, p geo.Point) error { return l.InsertPoint(i, p) })
	add("DelPoint", func(l geo.LineString, i int) error { return l.DelPoint(i) })
	add("SetPoint", func(l geo.LineString, i int, p geo.Point) error { return l.SetPoint(i, p) })
	add("Reverse", func(l geo.LineString) { l.Reverse() })
	add("ReverseZ", func(l geo.LineStringZ) { l.Reverse() })
	add("DouglasPeuckerSimplify", geo.DouglasPeuckerSimplify)
	add("Buffer", geo.Point.Buffer)
	add("CacAngle", geo.CacAngle)
	add("CacConvex", geo.CacConvex)
	add("CacQuadrantAngle", geo.CacQuadrantAngle)
	add("WGS84toGCJ02", geo.WGS84toGCJ02)
	add("GCJ02toWGS84", geo.GCJ02toWGS84)
	add("GCJ02toBD09", geo.GCJ02toBD09)
	add("BD09toGCJ02", geo.BD09toGCJ02)
	add("WGS84toBD09", geo.WGS84toBD09)
	add("BD09toWGS84", geo.BD09toWGS84)
	add("FromLatLon", geo.FromLatLon)
	add("ToLatLon", func(e, n float64, z int, l string, h []bool) (float64, float64, error) {
		return geo.ToLatLon(e, n, z, l, h...)
	})
	add("GeohashEncode", geo.GeohashEncode)
	add("S2GetCellID", geo.S2GetCellID)
	add("S2RegionCoverer", func(p geo.Polygon, h []bool, s geo.SRID) []uint64 {
		for _, r := range p {
			for _, q := range r {
				if !(math.Abs(q.X)+math.Abs(q.Y) < 1e9) {
					return nil
				}
			}
		}
		return geo.S2RegionCoverer(p, len(h), s)
	})
	add("S2 of a cell", func(k int, s geo.SRID) interface{} {
		id := uint64(k) * 0x9e3779b97f4a7c15
		return []interface{}{geo.S2GetCenter(id, s), geo.S2GetBoundary(id|1, s)}
	})
	add("SplitByIndex", func(l geo.LineString, k int) interface{} {
		if k < 0 || k >= len(l) {
			return nil
		}
		a, b := l.SplitByIndex(k)
		return []interface{}{a, b}
	})
	add("Vector2", func(a, b, k float64, v geo.Point) interface{} {
		u := &geo.Vector2{X: a, Y: b}
		w := geo.Vector2{X: v.X, Y: v.Y}
		r := []interface{}{u.Length(), u.Dot(w), u.Cross(w), u.Clone()}
		if w.Length() != 0 { // dividing by zero is a deliberate panic
			r = append(r, geo.Normalize(w))
		}
		if u.Length() != 0 {
			u.Normalize()
		}
		u.Multiply(k)
		return append(r, *u)
	})
	add("GetAllBoundingBoxes", func(a, b geo.Geometry) interface{} {
		t := geo.NewMinMaxTree(1, 2, geo.Spatial{ID: "a", Geom: a}, geo.Spatial{ID: "b", Geom: b}, geo.Spatial{ID: "a", Geom: b})
		n := len(t.GetAllBoundingBoxes()) + t.Depth()
		t.UpsertBySpatialID(geo.Spatial{ID: "b", Geom: a})
		return []interface{}{n, len(t.SearchBySpatialID("a")), t.DeleteBySpatialID("b"), t.DeleteBySpatialID("a"), t.Size()}
	})
	add("Insert and Delete", func(a, b geo.Geometry, q *geo.Box) interface{} {
		t := geo.NewMinMaxTree(1, 3)
		objs := []geo.Spatial{{ID: "a", Geom: a}, {ID: "p", Geom: geo.Point{X: 1, Y: 1}}, {ID: "b", Geom: b}, {ID: "a", Geom: b}, {ID: "q", Geom: geo.Point{X: -1e200, Y: 3}}, {ID: "c", Geom: a}}
		for _, o := range objs {
			t.Insert(o)
		}
		if t.Size() != len(objs) {
			panic("size")
		}
		n := len(t.SearchIntersect(q)) + len(t.NearestNeighbors(3, geo.Point{X: 2}))
		for _, o := range objs {
			t.DeleteBySpatialID(o.ID)
		}
		for _, o := range objs[:3] {
			t.Insert(o)
			t.Delete(o)
		}
		return n
	})
	add("NewFeature", func(g geo.Geometry) interface{} {
		f := geojson.NewFeature(g)
		f.SetBoundingBox()
		b, _ := json.Marshal(f)
		f, _ = geojson.UnmarshalFeature(b)
		if f != nil {
			f.SetBoundingBox()
		}
		return f
	})
	add("NewTree", func(a, b geo.Geometry, q *geo.Box, k int) interface{} {
		p := geo.Point{X: float64(k % 7), Y: 1}
		t := geo.NewTree(geo.Spatial{ID: "a", Geom: a}, geo.Spatial{ID: "b", Geom: b})
		return []interface{}{t.SearchIntersect(q), t.NearestNeighbors(k, p), t.Delete(geo.Spatial{ID: "a", Geom: a}), t.Size()}
	})
	return
}

var sridMu sync.Mutex

func havePools(in []reflect.Type) (ok bool) {
	defer func() { ok = recover() == nil }()
	for _, t := range in {
		totalPool(t, 0)
	}
	return true
}

// totalMethods are the methods of every type of the package, called on degenerate values; those with
// a precondition that is an exception of the property are above, with the condition.
func totalMethods() (l []totalFn) {
	for _, x := range []interface{}{geo.Point{}, geo.PointZ{}, geo.MultiPoint{}, geo.MultiPointZ{}, geo.LineString{}, geo.LineStringZ{}, geo.LinearRing{}, geo.LinearRingZ{}, geo.Polygon{}, geo.PolygonZ{},
		geo.MultiLineString{}, geo.MultiLineStringZ{}, geo.MultiPolygon{}, geo.MultiPolygonZ{}, geo.Collection{}, geo.Box{}, geo.LineSegment{}} {
		ty := reflect.TypeOf(x)
		pt := reflect.PtrTo(ty)
		for i := 0; i < pt.NumMethod(); i++ {
			m := pt.Method(i)
			if m.Name == "SplitByIndex" {
				continue
			}
			ft := m.Func.Type()
			in := []reflect.Type{ty}
			for k := 1; k < ft.NumIn(); k++ {
				in = append(in, ft.In(k))
			}
			if !havePools(in) {
				continue
			}
			f := func(a []reflect.Value) []reflect.Value {
				for _, v := range a {
					if v.Kind() == reflect.Ptr && v.IsNil() {
						return nil
					}
				}
				r := reflect.New(ty)
				r.Elem().Set(a[0])
				if m.Name == "SetSrid" { // a global map
					sridMu.Lock()
					defer sridMu.Unlock()
				}
				args := append([]reflect.Value{r}, a[1:]...)
				if ft.IsVariadic() {
					m.Func.CallSlice(args)
				} else {
					m.Func.Call(args)
				}
				return nil
			}
			l = append(l, totalFn{name: "method " + ty.Name() + "." + m.Name, fn: reflect.MakeFunc(reflect.FuncOf(in, nil, false), f), args: in})
		}
	}
	return
}

func totalPool(t reflect.Type, n int) (r []reflect.Value) {
	nan, inf := math.NaN(), math.Inf(1)
	pt := []geo.Point{{}, {X: 1, Y: 2}, {X: -3, Y: 2.5}, {X: nan, Y: 1}, {X: inf, Y: -inf}, {X: 1e308, Y: -1e308}, {X: 200, Y: -100}}
	ptz := []geo.PointZ{{}, {X: 1, Y: 2, Z: 3}, {X: nan, Y: inf, Z: nan}}
	p2 := func(v ...float64) (r []geo.Point) { return opPts(v...) }
	lines := [][]geo.Point{nil, {}, p2(1, 2), p2(1, 2, 1, 2), p2(0, 0, 4, 0), p2(0, 0, 4, 0, 2, 0), p2(0, 0, 4, 0, 0, 0), p2(0, 0, 4, 0, 4, 4, 0, 0), p2(0, 0, 4, 0, 4, 4, 0, 4, 0, 0), p2(0, 0, 4, 0, 4, 4), p2(0, 0, nan, 1, 2, 2, 0, 0), p2(0, 0, inf, 0, 1, 1, 0, 0), p2(1, 1, 1, 1, 1, 1, 1, 1), p2(0, 0, 1e308, 0, -1e308, 1e308, 0, 0)}
	if n > 0 {
		al := []geo.Point{{}, {X: 4}, {X: 4, Y: 4}, {X: nan, Y: 1}, {X: 1e308, Y: -1e308}}
		for k := 1; k <= 4; k++ {
			if k == 4 {
				al = al[:4]
			}
			for i := int64(0); i < Pow(len(al), k); i++ {
				var l []geo.Point
				for _, d := range Digits(i, len(al), k, nil) {
					l = append(l, al[d])
				}
				lines = append(lines, l)
				if k == 3 {
					lines = append(lines, append(append([]geo.Point{}, l...), l[0]))
				}
			}
		}
	}
	var linesz [][]geo.PointZ
	for _, l := range lines {
		if l == nil {
			linesz = append(linesz, nil)
		} else {
			linesz = append(linesz, append([]geo.PointZ{}, opZ(l)...))
		}
	}
	var polys []geo.Polygon
	polys = append(polys, nil, geo.Polygon{})
	for _, l := range lines {
		polys = append(polys, geo.Polygon{geo.LinearRing(l)})
	}
	for _, k := range []int{0, 1, 2, 3, 4, 7} {
		polys = append(polys, geo.Polygon{geo.LinearRing(lines[8]), geo.LinearRing(lines[k])})
		polys = append(polys, geo.Polygon{geo.LinearRing(lines[k]), geo.LinearRing(lines[8])})
	}
	add := func(x ...interface{}) {
		for _, v := range x {
			if v == nil {
				r = append(r, reflect.Zero(t))
			} else {
				r = append(r, reflect.ValueOf(v).Convert(t))
			}
		}
	}
	switch t {
	case reflect.TypeOf(geo.Point{}):
		for _, p := range pt {
			add(p)
		}
	case reflect.TypeOf(geo.PointZ{}):
		for _, p := range ptz {
			add(p)
		}
	case reflect.TypeOf(geo.LineString{}), reflect.TypeOf(geo.LinearRing{}), reflect.TypeOf(geo.MultiPoint{}):
		for _, p := range lines {
			add(p)
		}
	case reflect.TypeOf(geo.LineStringZ{}), reflect.TypeOf(geo.LinearRingZ{}), reflect.TypeOf(geo.MultiPointZ{}):
		for _, p := range linesz {
			add(p)
		}
	case reflect.TypeOf(geo.Polygon{}):
		for _, p := range polys {
			add(p)
		}
	case reflect.TypeOf(geo.PolygonZ{}):
		add(geo.PolygonZ(nil), geo.PolygonZ{}, geo.PolygonZ{nil}, geo.PolygonZ{linesz[2]}, geo.PolygonZ{linesz[8], linesz[1]}, geo.PolygonZ{linesz[8], linesz[7]})
	case reflect.TypeOf(geo.MultiPolygon{}):
		add(geo.MultiPolygon(nil), geo.MultiPolygon{}, geo.MultiPolygon{nil}, geo.MultiPolygon{{}}, geo.MultiPolygon{{nil}}, geo.MultiPolygon{polys[8], polys[10]}, geo.MultiPolygon{polys[10], nil})
	case reflect.TypeOf(geo.LineSegment{}):
		for _, a := range pt[:6] {
			for _, b := range pt[:6] {
				add(geo.LineSegment{Start: a, End: b})
			}
		}
	case reflect.TypeOf((*geo.Box)(nil)):
		add(nil, geo.NewBox(0, 0, 0, 0), geo.NewBox(0, 0, 1, 2), geo.NewBox(2, 2, -1, -1), &geo.Box{MinX: nan, MaxX: nan}, &geo.Box{MinX: -inf, MaxX: inf, MinY: -inf, MaxY: inf})
	case reflect.TypeOf(geo.Box{}):
		add(geo.Box{}, geo.Box{MaxX: 1}, geo.Box{MaxX: 1, MaxY: 2}, geo.Box{MinX: 3}, geo.Box{MinX: nan}, geo.Box{MaxX: inf, MaxY: inf})
	case reflect.TypeOf(geo.SRID(0)):
		add(geo.SRID(0), geo.SRID_WGS84_GPS, geo.SRID_WGS84_PSEUDO_MERCATOR, geo.SRID(-1))
	case reflect.TypeOf((*geo.Geometry)(nil)).Elem():
		var g []geo.Geometry
		g = append(g, nil)
		for _, ty := range []reflect.Type{reflect.TypeOf(geo.Point{}), reflect.TypeOf(geo.PointZ{}), reflect.TypeOf(geo.LineString{}), reflect.TypeOf(geo.LineStringZ{}), reflect.TypeOf(geo.MultiPoint{}), reflect.TypeOf(geo.MultiPointZ{}), reflect.TypeOf(geo.Polygon{}), reflect.TypeOf(geo.PolygonZ{}), reflect.TypeOf(geo.MultiPolygon{})} {
			for _, v := range totalPool(ty, n) {
				g = append(g, v.Interface().(geo.Geometry))
			}
		}
		g = append(g, geo.MultiLineString(nil), geo.MultiLineString{}, geo.MultiLineString{nil}, geo.MultiLineString{lines[2], lines[1]}, geo.MultiLineString{lines[5], lines[8]}, geo.MultiLineStringZ{}, geo.MultiLineStringZ{nil}, geo.MultiLineStringZ{linesz[5], linesz[2]}, geo.MultiPolygonZ{}, geo.MultiPolygonZ{nil}, geo.MultiPolygonZ{{nil}}, geo.MultiPolygonZ{{linesz[8]}})
		g = append(g, geo.Collection(nil), geo.Collection{}, geo.Collection{nil}, geo.Collection{geo.Collection{}, geo.Point{X: 1}}, geo.Collection{geo.LineString(lines[5]), geo.Polygon{}, geo.Point{Y: 3}})
		for _, x := range g {
			if x == nil {
				r = append(r, reflect.Zero(t))
			} else {
				r = append(r, reflect.ValueOf(x))
			}
		}
	default:
		switch t.Kind() {
		case reflect.Float64:
			add(0.0, 1.0, -1.5, 90.0, 200.0, nan, inf, 500000.0, 1e308)
		case reflect.Int:
			add(0, 1, -1, 2, 5, 32, 61, 1<<40)
		case reflect.Uint:
			add(uint(0), uint(1), uint(5), uint(12))
		case reflect.Uint64:
			add(uint64(0), uint64(4326), uint64(1)<<63)
		case reflect.Bool:
			add(true, false)
		case reflect.String:
			add("", "N", "U", "x", "é", "UU")
		case reflect.Slice:
			switch e := t.Elem(); {
			case t.Implements(reflect.TypeOf((*geo.Geometry)(nil)).Elem()):
				for _, v := range totalPool(reflect.TypeOf((*geo.Geometry)(nil)).Elem(), 0) {
					if v.IsValid() && v.Type() == t {
						r = append(r, v)
					}
				}
			case e == reflect.TypeOf(geo.Point{}):
				for _, p := range lines {
					add(p)
				}
			case e == reflect.TypeOf(geo.PointZ{}):
				for _, p := range linesz {
					add(p)
				}
			}
			if t.Elem().Kind() == reflect.Bool {
				add([]bool(nil), []bool{true}, []bool{false}, []bool{true, false})
			}
		}
	}
	if len(r) == 0 {
		panic(fmt.Sprint("no arguments of type ", t))
	}
	return
}

func init() {
	register(&Prop{ID: "T01", Rule: "every combination of arguments from pools of empty, degenerate, ordinary and non-finite values of every parameter type, for every operation of a list that covers the exported functions",
		Assum: []string{"indices passed to SplitByIndex are positions of the line; coordinates of cell functions are finite"}, Run: func(c *Ctx) {
			pool := func(f totalFn) int {
				big := 0
				for _, a := range f.args {
					if a.Kind() == reflect.Slice || a.Kind() == reflect.Interface {
						big++
					}
				}
				if c.Thorough() && (big < 2 || len(f.args) < 4) {
					return 1
				}
				return 0
			}
			for _, f := range append(totalFns(), totalMethods()...) {
				f := f
				var rad []int
				var pools [][]reflect.Value
				for _, a := range f.args {
					p := totalPool(a, pool(f))
					pools = append(pools, p)
					rad = append(rad, len(p))
				}
				c.Enum(f.name, Product(rad), func(i int64, t *T) {
					d := Radix(i, rad, nil)
					var in []reflect.Value
					for k := range d {
						in = append(in, cloneVal(pools[k][d[k]]))
					}
					t.Desc(func() string {
						s := f.name + "("
						for k := range d {
							s += fmt.Sprintf("%#v, ", pools[k][d[k]].Interface())
						}
						return s + ")"
					})
					t.ops++
					f.fn.Call(in)
					t.Trace()
				})
			}
		}})
}

// cloneVal: the operations may edit what they are given only if they say so; the pools are shared.
func cloneVal(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		r := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(cloneVal(v.Index(i)))
		}
		return r
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		r := reflect.New(v.Type()).Elem()
		r.Set(cloneVal(v.Elem()))
		return r
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		r := reflect.New(v.Type().Elem())
		r.Elem().Set(v.Elem())
		return r
	}
	return v
}
