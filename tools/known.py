#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from /repo's fix: commits (development aid).

The "known" list is kept as it is; it is edited by hand."""
import subprocess, json
MAP = """
DouglasPeuckerSimplify ends for|T01
NearestNeighbors asked for more|T01
S2RegionCoverer of a polygon without|T01
SetBoundingBox of a decoded|J03
inserting into an Rtree whose|T01
collapse every single-child root|R06
give each bulk-loaded leaf|R05
Rtree.Delete compares|R02
DeleteBySpatialID removes|R03
InsertWithRandomId makes|R05
NearestNeighbors returns nothing|R04
bounding box of coordinates beyond|B01
BoundingBox of 3D|B01
BoxToGeo returns|B02
IsPointOnSegment finds|P02
SegmentRelation of collinear|P02
IsPointOnLine does not|P02
SelfIntersect looks|P04
Polygon.Verify takes|P04
IsPointInPolygon takes|P01
SegPolyRelation checks|P03
LinearPolyRelation checks|P03
PolyRelation of a polygon|P03
area of polygons with holes|A01
centroid of polygons with holes|A02
centroid of a line|A02
ConvexHull of more|H01
Mbr tries|H02
RotateCW keeps|H03
distance to a segment|D01
PointPolygonDistance measures|D01
DouglasPeuckerSimplify leaves|S01
LineString.InsertPoint|L01
LineString positions below|L01
lines of different length|L01
closing a ring does not|L03
the parts made by SplitByIndex|L03
polygons and rings from too few|L02
EuclideanDisZ|D01
CacConvex recognises|V01
CacConvex tells|V01
SetSrid stores|L02
great circle distance of nearly|D03
UTM zone of longitude|E01
UTM zone letter|E01
the equator is|E01
S2RegionCoverer leaves|E05
wkt.Decode of multi-part|W01
wkt.Decode reports|W02
MarshalGeo of PolygonZ|J01
UnmarshalGeo reports|J02
Feature.SetBoundingBox|J03
CacQuadrantAngle of points beyond|V01
distances beyond 2|D01
GetAllBoundingBoxes returns the tree's|C01
BoxUnion of one box|C01
"""
m = [l.split("|") for l in MAP.strip().splitlines()]
extra = "tools/known_extra.txt"
try:
    m += [l.strip().split("|") for l in open(extra) if l.strip()]
except FileNotFoundError:
    pass
d = json.load(open("known_findings.json"))
d["fixed"] = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    ps = [p for k, p in m if s.startswith(k)]
    assert len(ps) == 1, (s, ps)
    body = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%b", h], text=True).strip().replace("\n", " ")
    d["fixed"].append("fixed: property=%s %s %s" % (ps[0], h, s + (": " + body if body else "")))
json.dump(d, open("known_findings.json", "w"), indent=1, ensure_ascii=False)
open("known_findings.json", "a").write("\n")
