package main

// Features, feature collections and properties (J03, J04).

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
)

// a feature and its model; operations change both, and after every operation the feature is
// encoded, compared with the model, decoded and compared again.
type featInst struct {
	f  *geojson.Feature
	fc *geojson.FeatureCollection

	g     geo.Geometry
	id    interface{}
	props map[string]interface{}
	bbox  []interface{}
	crs   map[string]interface{}
	in    []map[string]interface{} // features added to the collection, as JSON objects (nil: the live one)
	set   bool                     // Geometry is known (false after decoding)
	fbox  bool
}

var featGeoms = []geo.Geometry{
	geo.Point{X: 1.5, Y: -2},
	geo.PointZ{X: 1, Y: 2, Z: 3},
	geo.LineString{{X: 3, Y: 1}, {X: -4, Y: 8}},
	geo.Polygon{{{X: 0, Y: 0}, {X: 9, Y: 0}, {X: 9, Y: 7}, {X: 0, Y: 0}}, {{X: 5, Y: 1}, {X: 6, Y: 1}, {X: 6, Y: 2}, {X: 5, Y: 1}}},
	geo.PolygonZ{{{X: 0, Y: 0, Z: 5}, {X: 9, Y: 0, Z: 6}, {X: 9, Y: 7, Z: 7}, {X: 0, Y: 0, Z: 5}}},
	geo.MultiPolygon{{{{X: -3, Y: 0}, {X: 9, Y: 0}, {X: 9, Y: 7}, {X: -3, Y: 0}}}, {{{X: 20, Y: 20}, {X: 21, Y: 20}, {X: 21, Y: 22}, {X: 20, Y: 20}}}},
	geo.MultiPoint{{X: 4, Y: 4}, {X: 2, Y: 9}},
	geo.MultiLineStringZ{{{X: 1, Y: 1, Z: 1}, {X: 2, Y: 2, Z: 2}}, {{X: 7, Y: 0, Z: 1}, {X: 8, Y: 0, Z: 1}}},
	geo.LineStringZ{{X: 1, Y: 1, Z: 1}, {X: 2, Y: 5, Z: 2}},
	geo.MultiLineString{{{X: 1, Y: 1}, {X: 2, Y: 2}}},
	geo.MultiPointZ{{X: 1, Y: 1, Z: 0}},
	geo.MultiPolygonZ{{{{X: 0, Y: 0, Z: 5}, {X: 9, Y: 0, Z: 6}, {X: 9, Y: 7, Z: 7}, {X: 0, Y: 0, Z: 5}}}},
}

var featOps = []string{
	`SetProperty(a, "x")`, `SetProperty(a, 2.5)`, `SetProperty(b, nested)`, `SetProperty(c, nil)`, `ID = "k"`, `ID = 7`, `SetBoundingBox`, `CRS`, `encode and decode (pointer)`, `encode and decode (value)`, `Properties = nil`, `AddFeature`, `encode and decode the collection`, `collection bbox and CRS`,
}

func (fi *featInst) want() map[string]interface{} {
	m := map[string]interface{}{"type": "Feature", "properties": nil}
	ty, co := coordsOf(fi.g)
	m["geometry"] = map[string]interface{}{"type": ty, "coordinates": co}
	if fi.id != nil {
		m["id"] = fi.id
	}
	if len(fi.props) > 0 {
		p := map[string]interface{}{}
		for k, v := range fi.props {
			p[k] = v
		}
		m["properties"] = p
	}
	if fi.bbox != nil {
		m["bbox"] = fi.bbox
	}
	if fi.crs != nil {
		m["crs"] = fi.crs
	}
	return m
}

func (fi *featInst) Apply(t *T, op int) bool {
	t.ops++
	setp := func(k string, v, j interface{}) {
		fi.f.SetProperty(k, v)
		fi.props[k] = j
	}
	switch op {
	case 0:
		setp("a", "x", "x")
	case 1:
		setp("a", 2.5, 2.5)
	case 2:
		v := map[string]interface{}{"q": []interface{}{1.0, "z", nil}}
		setp("b", v, v)
	case 3:
		setp("c", nil, nil)
	case 4:
		fi.f.ID, fi.id = "k", "k"
	case 5:
		fi.f.ID, fi.id = 7, 7.0
	case 6:
		fi.f.SetBoundingBox()
		b := extent(fi.g)
		if !fi.set {
			// a decoded feature holds the geometry as JSON only; the Multi types cannot be read back
			switch fi.g.(type) {
			case geo.Point, geo.PointZ, geo.LineString, geo.LineStringZ, geo.Polygon, geo.PolygonZ:
			default:
				if len(fi.f.BoundingBox) != 4 || fi.f.BoundingBox[0] != b.MinX || fi.f.BoundingBox[3] != b.MaxY {
					return true
				}
			}
		}
		fi.bbox = []interface{}{b.MinX, b.MinY, b.MaxX, b.MaxY}
	case 7:
		if fi.crs != nil {
			return false
		}
		fi.crs = map[string]interface{}{"type": "name"}
		fi.f.CRS = map[string]interface{}{"type": "name"}
	case 8, 9:
		var b []byte
		var err error
		if op == 8 {
			b, err = json.Marshal(fi.f)
		} else {
			b, err = fi.f.MarshalJSON()
		}
		if err != nil {
			t.Failf("marshal", "%v", err)
		}
		f, err := geojson.UnmarshalFeature(b)
		if err != nil || f == nil {
			t.Failf("unmarshal", "UnmarshalFeature(%s): %v", b, err)
		}
		fi.f, fi.set = f, f.Geometry != nil
		if f.Geometry != nil && !sameGeom(f.Geometry, fi.g) {
			t.Failf("geometry", "UnmarshalFeature(%s) has geometry %v", b, f.Geometry)
		}
		if len(fi.props) == 0 {
			fi.props = map[string]interface{}{}
		}
	case 10:
		fi.f.Properties, fi.props = nil, map[string]interface{}{}
	case 11:
		if len(fi.in) >= 2 {
			return false
		}
		if r := fi.fc.AddFeature(fi.f); r != fi.fc {
			t.Failf("add", "AddFeature does not return the collection")
		}
		// continue with a new feature of the next geometry
		fi.in = append(fi.in, fi.want())
		k := 0
		for j, g := range featGeoms {
			if reflect.DeepEqual(g, fi.g) {
				k = j
			}
		}
		fi.start(featGeoms[(k+1)%len(featGeoms)])
	case 12:
		b, err := json.Marshal(fi.fc)
		if err != nil {
			t.Failf("marshal", "%v", err)
		}
		fc, err := geojson.UnmarshalFeatureCollection(b)
		if err != nil {
			t.Failf("unmarshal", "UnmarshalFeatureCollection(%s): %v", b, err)
		}
		fi.fc = fc
	case 13:
		fi.fc.BoundingBox = []float64{1, 2, 3, 4}
		fi.fc.CRS = map[string]interface{}{"type": "link"}
		fi.fbox = true
	}
	return true
}

func (fi *featInst) start(g geo.Geometry) {
	fi.g, fi.id, fi.bbox, fi.crs, fi.set = g, nil, nil, nil, true
	fi.props = map[string]interface{}{}
	fi.f = geojson.NewFeature(cloneGeom(g))
}

func (fi *featInst) Check(t *T) {
	w := fi.want()
	for k := 0; k < 3; k++ {
		var b []byte
		var err error
		switch k {
		case 0:
			b, err = json.Marshal(fi.f)
		case 1:
			b, err = json.Marshal(*fi.f)
		case 2:
			b, err = fi.f.MarshalJSON()
		}
		t.ops++
		if err != nil {
			t.Failf("marshal", "%v", err)
		}
		if m := parseJSON(t, b); !reflect.DeepEqual(m, w) {
			t.Failf("feature", "the feature is encoded as %s, want %v", b, w)
		}
	}
	wc := map[string]interface{}{"type": "FeatureCollection", "features": []interface{}{}}
	for _, x := range fi.in {
		wc["features"] = append(wc["features"].([]interface{}), x)
	}
	if fi.fbox {
		wc["bbox"] = []interface{}{1.0, 2.0, 3.0, 4.0}
		wc["crs"] = map[string]interface{}{"type": "link"}
	}
	for k := 0; k < 2; k++ {
		var b []byte
		var err error
		if k == 0 {
			b, err = json.Marshal(fi.fc)
		} else {
			b, err = fi.fc.MarshalJSON()
		}
		t.ops++
		if err != nil {
			t.Failf("marshal", "%v", err)
		}
		if m := parseJSON(t, b); !reflect.DeepEqual(m, wc) {
			t.Failf("collection", "the collection is encoded as %s, want %v", b, wc)
		}
	}
	// decoded features give the geometry back
	if fi.f.GeometryJson == nil {
		t.Failf("geometry", "no GeometryJson")
	}
	g, err := geojson.UnmarshalGeo(fi.f.GeometryJson)
	switch fi.g.(type) {
	case geo.Point, geo.PointZ, geo.LineString, geo.LineStringZ, geo.Polygon, geo.PolygonZ:
		if err != nil || !sameGeom(g, fi.g) {
			t.Failf("geometry", "UnmarshalGeo of the feature's geometry = %v, %v; want %v", g, err, fi.g)
		}
	}
	if fi.set && fi.f.Geometry != nil && !sameGeom(fi.f.Geometry, fi.g) {
		t.Failf("geometry", "Geometry is %v, want %v", fi.f.Geometry, fi.g)
	}
	if fi.f.Type != "Feature" || fi.fc.Type != "FeatureCollection" {
		t.Failf("type", "Type %q, %q", fi.f.Type, fi.fc.Type)
	}
}

func (fi *featInst) Key() string {
	return fmt.Sprint(fi.g, fi.id, fi.props, fi.bbox, fi.crs, fi.set, fi.in, fi.fbox) + Canon(fi.f) + Canon(fi.fc)
}

// extent is the bounding box by direct comparison.
func extent(g geo.Geometry) geo.Box {
	b := geo.Box{MinX: math.Inf(1), MinY: math.Inf(1), MaxX: math.Inf(-1), MaxY: math.Inf(-1)}
	var walk func(v interface{})
	_, co := coordsOf(g)
	walk = func(v interface{}) {
		l := v.([]interface{})
		if x, ok := l[0].(float64); ok {
			y := l[1].(float64)
			b.MinX, b.MaxX = math.Min(b.MinX, x), math.Max(b.MaxX, x)
			b.MinY, b.MaxY = math.Min(b.MinY, y), math.Max(b.MaxY, y)
			return
		}
		for _, x := range l {
			walk(x)
		}
	}
	walk(co)
	return b
}

func registerFeatures() {
	register(&Prop{ID: "J03", Rule: "breadth-first search over the states of a feature and a feature collection under sequences of all editing, encoding and decoding operations, for every geometry type; after every operation both are encoded and compared with a model", Assum: []string{"features made by NewFeature, by UnmarshalFeature or in a decoded collection; SetBoundingBox of a decoded feature of a Multi type may leave the box as it was"}, Run: func(c *Ctx) {
		for k, g := range featGeoms {
			g := g
			c.BFS(&System{Name: fmt.Sprintf("feature %d %s", k, g.Type()), NOps: len(featOps), Depth: Pick(c, depthQ(k), 6), OpStr: func(o int) string { return featOps[o] },
				New: func() Inst {
					fi := &featInst{fc: geojson.NewFeatureCollection()}
					fi.start(g)
					return fi
				}})
		}
		// zero, empty and unusual values: each must survive as what it is
		zg := append(append([]geo.Geometry{}, featGeoms...),
			geo.Point{}, geo.PointZ{}, geo.LineString{{}, {}}, geo.LineString{{X: 0, Y: 0}, {X: 5, Y: 0}}, geo.MultiPoint{{}}, geo.Polygon{{{}, {}, {}, {}}}, geo.LineStringZ{{Z: 1}, {Z: 2}},
			geo.Point{X: 180, Y: 90}, geo.Point{X: -180, Y: -90}, geo.Point{X: 0.1, Y: 1e-7}, geo.PointZ{X: 1e21, Y: -1e-21, Z: 123456789.123456789}, geo.LineString{{X: 179, Y: -17}, {X: -179, Y: -16}})
		zid := []interface{}{nil, 0.0, "", "0", "null", -1.0, 1e300, 0.1, false, "a\"b\\c\u2028\n", "\u4e2d\u6587 <&>", []interface{}{}, map[string]interface{}{}}
		zval := []interface{}{nil, 0.0, "", false, true, []interface{}{}, map[string]interface{}{}, []interface{}{nil, 0.0, ""}, "null", "\u00e9\u4e2d<>&\u2028\"\\", 1e-300, -0.5, map[string]interface{}{"": map[string]interface{}{"": []interface{}{[]interface{}{}}}}}
		zkey := []string{"a", "", "type", "geometry", "A", "\u4e2d", "a.b", "x\"y"}
		zrad := []int{len(zg), len(zid), len(zval), len(zkey), 3, 3}
		c.Enum("zero, empty and unusual values", Product(zrad), func(i int64, t *T) {
			d := Radix(i, zrad, nil)
			fi := &featInst{fc: geojson.NewFeatureCollection()}
			fi.start(zg[d[0]])
			t.Desc(func() string {
				return fmt.Sprintf("%v with id %#v, property %q = %#v, box %d, CRS %d", zg[d[0]], zid[d[1]], zkey[d[3]], zval[d[2]], d[4], d[5])
			})
			fi.f.ID, fi.id = zid[d[1]], zid[d[1]]
			fi.f.SetProperty(zkey[d[3]], zval[d[2]])
			fi.props[zkey[d[3]]] = zval[d[2]]
			switch d[4] {
			case 1:
				fi.Apply(t, 6)
			case 2:
				fi.f.BoundingBox, fi.bbox = []float64{0, 0, 0, 0}, []interface{}{0.0, 0.0, 0.0, 0.0}
			}
			if d[5] > 0 {
				m := []map[string]interface{}{{"type": "name", "properties": map[string]interface{}{"name": ""}}, {"": nil}}[d[5]-1]
				fi.f.CRS, fi.crs = m, m
			}
			fi.Check(t)
			fi.Apply(t, []int{8, 9}[int(i)%2]) // encode and decode
			fi.Check(t)
			if v, ok := fi.f.Properties[zkey[d[3]]]; !ok || len(fi.f.Properties) != 1 || !reflect.DeepEqual(v, zval[d[2]]) {
				t.Failf("property", "property %q is %#v after encoding and decoding, want %#v", zkey[d[3]], v, zval[d[2]])
			}
			if !reflect.DeepEqual(fi.f.ID, zid[d[1]]) {
				t.Failf("id", "ID is %#v after encoding and decoding, want %#v", fi.f.ID, zid[d[1]])
			}
			fi.Apply(t, 11) // into the collection, followed by another feature
			fi.Check(t)
			fi.Apply(t, 12)
			fi.Check(t)
			t.Trace()
		})
		// texts from elsewhere
		docs := []string{
			`{"type":"Feature","geometry":{"type":"Point","coordinates":[102.0, 0.5]},"properties":{"prop0":"value0","n":null},"id":"x","bbox":[1,2,3,4]}`,
			`{"type":"Feature","id":5,"geometry":{"coordinates":[[1,2],[3,4e2]],"type":"LineString"},"properties":{"a":{"b":[1,2,{"c":true}]}}}`,
			`{"type":"Feature","geometry":null,"properties":null}`,
			`{"type":"Feature","geometry":{"type":"MultiPoint","coordinates":[[1,2],[3,4]]},"properties":{},"unknown":[1,2,3]}`,
			`{"type":"Feature","geometry":{"type":"GeometryCollection","geometries":[{"type":"Point","coordinates":[1,2]}]},"properties":{"deep":[[[[1]]]]},"crs":{"type":"name"}}`,
		}
		bad := []string{``, `{`, `[]`, `"x"`, `5`, `{"type":5}`, `{"bbox":"x"}`, `{"properties":[]}`, `{"geometry":[1]}`, `{"crs":1}`, `nul`, `{"type":"Feature",}`, `{"features":{}}`, `{"features":[5]}`, `{"bbox":[1,"2"]}`}
		c.Enum("documents", int64(len(docs)*2+len(bad)), func(i int64, t *T) {
			if int(i) >= 2*len(docs) {
				s := bad[int(i)-2*len(docs)]
				t.Desc(func() string { return s })
				f, e1 := geojson.UnmarshalFeature([]byte(s))
				fc, e2 := geojson.UnmarshalFeatureCollection([]byte(s))
				t.ops += 2
				var ref struct {
					T string                 `json:"type"`
					B []float64              `json:"bbox"`
					G *struct{}              `json:"geometry"`
					P map[string]interface{} `json:"properties"`
					C map[string]interface{} `json:"crs"`
				}
				if json.Unmarshal([]byte(s), &ref) != nil && (e1 == nil || f != nil) {
					t.Failf("malformed", "UnmarshalFeature(%s) = %v, %v", s, f, e1)
				}
				if (e2 == nil) != (fc != nil) {
					t.Failf("malformed", "UnmarshalFeatureCollection(%s) = %v, %v", s, fc, e2)
				}
				t.Trace()
				return
			}
			s := docs[i/2]
			coll := i%2 == 1
			var want map[string]interface{}
			json.Unmarshal([]byte(s), &want)
			delete(want, "unknown")
			if p, ok := want["properties"].(map[string]interface{}); ok && len(p) == 0 {
				want["properties"] = nil
			}
			if coll {
				s = `{"type":"FeatureCollection","features":[` + s + `,` + s + `]}`
			}
			t.Desc(func() string { return s })
			t.ops += 2
			if !coll {
				f, err := geojson.UnmarshalFeature([]byte(s))
				if err != nil {
					t.Failf("decode", "UnmarshalFeature(%s): %v", s, err)
				}
				b, err := json.Marshal(f)
				if got := parseJSON(t, b); err != nil || !reflect.DeepEqual(got, want) {
					t.Failf("document", "%s becomes %s", s, b)
				}
			} else {
				fc, err := geojson.UnmarshalFeatureCollection([]byte(s))
				if err != nil || len(fc.Features) != 2 {
					t.Failf("decode", "UnmarshalFeatureCollection(%s): %v", s, err)
				}
				b, err := json.Marshal(fc)
				w := map[string]interface{}{"type": "FeatureCollection", "features": []interface{}{want, want}}
				if got := parseJSON(t, b); err != nil || !reflect.DeepEqual(got, w) {
					t.Failf("document", "%s becomes %s", s, b)
				}
			}
			t.Trace()
		})
		// large collections and features with many properties
		fn := Pick(c, []int{3, 9, 17, 33, 65, 100, 129, 257, 1025}, []int{3, 5, 9, 16, 17, 33, 64, 65, 66, 100, 128, 129, 257, 500, 513, 1025, 2049})
		frad := []int{len(fn), 4, 3, 2}
		c.Enum("large collections", Product(frad), func(i int64, t *T) {
			d := Radix(i, frad, nil)
			n := fn[d[0]]
			t.Desc(func() string {
				return fmt.Sprintf("%d features, ids %s, %d further properties, encoded %d", n, []string{"different", "equal", "in pairs", "nil"}[d[1]], d[2]*n, d[3])
			})
			fc := geojson.NewFeatureCollection()
			feats := []interface{}{}
			var same []*geojson.Feature
			for k := 0; k < n; k++ {
				g := featGeoms[k%len(featGeoms)]
				if k%5 == 4 {
					g = geo.Point{X: float64(k), Y: -float64(k)}
				}
				fi := &featInst{fc: fc}
				fi.start(g)
				id := []interface{}{float64(k), "x", float64(k / 2), nil}[d[1]]
				if d[1] > 0 && k == n/2 && len(same) > 0 {
					// the very same feature once more
					fc.AddFeature(same[0])
					feats = append(feats, feats[0])
				}
				fi.f.ID, fi.id = id, id
				fi.f.SetProperty("n", float64(k))
				fi.props["n"] = float64(k)
				if d[2] > 0 && k == n-1 {
					for j := 0; j < d[2]*n; j++ {
						key := fmt.Sprint("p", j)
						fi.f.SetProperty(key, float64(j))
						fi.props[key] = float64(j)
					}
				}
				same = append(same, fi.f)
				if r := fc.AddFeature(fi.f); r != fc {
					t.Failf("add", "AddFeature does not return the collection")
				}
				feats = append(feats, fi.want())
			}
			want := map[string]interface{}{"type": "FeatureCollection", "features": feats}
			for round := 0; round < 2; round++ {
				if len(fc.Features) != len(feats) {
					t.Failf("collection", "the collection has %d features after round %d, want %d", len(fc.Features), round, len(feats))
				}
				var b []byte
				var err error
				if d[3] == 0 {
					b, err = json.Marshal(fc)
				} else {
					b, err = fc.MarshalJSON()
				}
				t.ops++
				if err != nil {
					t.Failf("marshal", "%v", err)
				}
				if m := parseJSON(t, b); !reflect.DeepEqual(m, want) {
					t.Failf("collection", "a collection of %d features is encoded as %.300s", n, b)
				}
				if fc, err = geojson.UnmarshalFeatureCollection(b); err != nil || fc == nil {
					t.Failf("unmarshal", "UnmarshalFeatureCollection of %d features: %v", n, err)
				}
				t.ops++
			}
			t.Trace()
		})
		c.Enum("empty collections", 2, func(i int64, t *T) {
			t.Desc(func() string { return "empty collection" })
			fc := geojson.FeatureCollection{}
			if i == 1 {
				fc = *geojson.NewFeatureCollection()
			}
			b, err := json.Marshal(fc)
			t.ops++
			if want := (map[string]interface{}{"type": "FeatureCollection", "features": []interface{}{}}); err != nil || !reflect.DeepEqual(parseJSON(t, b), want) {
				t.Failf("collection", "the empty collection is encoded as %s (%v)", b, err)
			}
			t.Trace()
		})
	}})

	register(&Prop{ID: "J04", Rule: "every value kind x getter x default x presence of the property, and sequences of SetProperty", Assum: []string{"numbers passed to PropertyInt fit an int"}, Run: func(c *Ctx) {
		type absent struct{}
		vals := []interface{}{absent{}, nil, true, false, 0, 7, -3, math.MaxInt64, 0.0, 2.5, -2.5, 7.0, 1e15, "", "x", "7", "true", float32(1.5), int64(9), uint8(3), []interface{}{1.0}, map[string]interface{}{"a": 1}, json.Number("5"), struct{}{}, 'r'}
		nv := int64(len(vals))
		c.Enum("values and getters", nv*nv*3*3, func(i int64, t *T) {
			d := Radix(i, []int{3, 3, len(vals), len(vals)}, nil)
			v, other := vals[d[2]], vals[d[3]]
			f := geojson.NewFeature(geo.Point{X: 1, Y: 2})
			switch d[0] {
			case 1:
				f.Properties = nil
			case 2:
				f = &geojson.Feature{}
			}
			if _, ok := other.(absent); !ok {
				f.SetProperty("other", other)
				f.SetProperty("k", other)
				delete(f.Properties, "k")
			}
			if _, ok := v.(absent); !ok {
				f.SetProperty("k", 99)
				f.SetProperty("k", v)
			}
			key := "k"
			if d[1] == 2 {
				key, v = "other", other
			}
			t.Desc(func() string { return fmt.Sprintf("property %s = %T %v beside %T %v", key, v, v, other, other) })
			t.ops += 12
			wb, okb := v.(bool)
			ws, oks := v.(string)
			wf, okf := v.(float64)
			wi, oki := v.(int)
			if okf {
				wi, oki = int(wf), true
			}
			gb, e1 := f.PropertyBool(key)
			gs, e2 := f.PropertyString(key)
			gf, e3 := f.PropertyFloat64(key)
			gi, e4 := f.PropertyInt(key)
			if gb != wb || (e1 == nil) != okb || gs != ws || (e2 == nil) != oks || gf != wf || (e3 == nil) != okf || gi != wi || (e4 == nil) != oki {
				t.Failf("getter", "getters: %v %v, %q %v, %v %v, %v %v", gb, e1, gs, e2, gf, e3, gi, e4)
			}
			var db []bool
			var ds []string
			var df []float64
			var di []int
			if d[1] == 1 {
				db, ds, df, di = []bool{true}, []string{"def"}, []float64{-1.25}, []int{42}
				if !okb {
					wb = true
				}
				if !oks {
					ws = "def"
				}
				if !okf {
					wf = -1.25
				}
				if !oki {
					wi = 42
				}
			}
			if a, b, c, e := f.PropertyMustBool(key, db...), f.PropertyMustString(key, ds...), f.PropertyMustFloat64(key, df...), f.PropertyMustInt(key, di...); a != wb || b != ws || c != wf || e != wi {
				t.Failf("must", "PropertyMust getters: %v %q %v %v, want %v %q %v %v", a, b, c, e, wb, ws, wf, wi)
			}
			if _, ok := other.(absent); !ok && !reflect.DeepEqual(f.Properties["other"], other) {
				t.Failf("other", "property other is %v", f.Properties["other"])
			}
			t.Trace()
		})
	}})
}

// depthQ: the quick tier goes one step deeper for three kinds of geometry
func depthQ(k int) int {
	if k%4 == 0 {
		return 5
	}
	return 4
}
