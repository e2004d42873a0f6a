package main

import (
	"sort"

	geo "github.com/hzw456/go-geo"
)

func clonePts(p []geo.Point) []geo.Point {
	if p == nil {
		return nil
	}
	return append(make([]geo.Point, 0, len(p)), p...)
}

func clonePtsZ(p []geo.PointZ) []geo.PointZ {
	if p == nil {
		return nil
	}
	return append(make([]geo.PointZ, 0, len(p)), p...)
}

// cloneGeom makes a deep copy with exact capacities.
func cloneGeom(g geo.Geometry) geo.Geometry {
	switch g := g.(type) {
	case geo.Point, geo.PointZ, nil:
		return g
	case geo.MultiPoint:
		return geo.MultiPoint(clonePts(g))
	case geo.MultiPointZ:
		return geo.MultiPointZ(clonePtsZ(g))
	case geo.LineString:
		return geo.LineString(clonePts(g))
	case geo.LineStringZ:
		return geo.LineStringZ(clonePtsZ(g))
	case geo.MultiLineString:
		r := make(geo.MultiLineString, 0, len(g))
		for _, l := range g {
			r = append(r, geo.LineString(clonePts(l)))
		}
		return r
	case geo.MultiLineStringZ:
		r := make(geo.MultiLineStringZ, 0, len(g))
		for _, l := range g {
			r = append(r, geo.LineStringZ(clonePtsZ(l)))
		}
		return r
	case geo.Polygon:
		return clonePoly(g)
	case geo.PolygonZ:
		return clonePolyZ(g)
	case geo.MultiPolygon:
		r := make(geo.MultiPolygon, 0, len(g))
		for _, p := range g {
			r = append(r, clonePoly(p))
		}
		return r
	case geo.MultiPolygonZ:
		r := make(geo.MultiPolygonZ, 0, len(g))
		for _, p := range g {
			r = append(r, clonePolyZ(p))
		}
		return r
	}
	panic("cloneGeom: unknown type")
}

func clonePoly(g geo.Polygon) geo.Polygon {
	if g == nil {
		return nil
	}
	r := make(geo.Polygon, 0, len(g))
	for _, l := range g {
		r = append(r, geo.LinearRing(clonePts(l)))
	}
	return r
}

func clonePolyZ(g geo.PolygonZ) geo.PolygonZ {
	if g == nil {
		return nil
	}
	r := make(geo.PolygonZ, 0, len(g))
	for _, l := range g {
		r = append(r, geo.LinearRingZ(clonePtsZ(l)))
	}
	return r
}

func sortStrings(s []string) { sort.Strings(s) }

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sortStrings(k)
	return k
}
