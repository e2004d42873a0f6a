From 5c8273a628d49bd64125dfa1d261759c43e0cfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 01/61] fix: collapse every single-child root level after a
 deletion

A deletion can leave a chain of single-child roots; only the first one was
removed, and the next Insert through the stale chain dereferenced nil.
---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 0282fce..eb67f16 100644
--- a/rtree.go
+++ b/rtree.go
@@ -599,7 +599,7 @@ func (tree *Rtree) DeleteWithComparator(obj Spatial, cond Condition) bool {
 	tree.condenseTree(n)
 	tree.size--
 
-	if !tree.root.leaf && len(tree.root.entries) == 1 {
+	for !tree.root.leaf && len(tree.root.entries) == 1 {
 		tree.root = tree.root.entries[0].child
 	}
 
-- 
2.43.0


From 4b2f524d6f5e6d2423e677cfa8ce7013197bda4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 02/61] fix: give each bulk-loaded leaf its own capacity

Leaves built by bulkLoad are consecutive slices of one array; appending to one
of them overwrote the first object of the next.
---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index eb67f16..1a2310b 100644
--- a/rtree.go
+++ b/rtree.go
@@ -117,7 +117,7 @@ func walkPartitions(k int, objs []entry, iter func(parts []entry)) {
 	n := (len(objs) + k - 1) / k // ceil(len(objs) / k)
 
 	for i := 1; i < n; i++ {
-		iter(objs[(i-1)*k : i*k])
+		iter(objs[(i-1)*k : i*k : i*k])
 	}
 	iter(objs[(n-1)*k:])
 }
-- 
2.43.0


From 8ca93a50d434ff4340828c907c40320504b8987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 03/61] fix: Rtree.Delete compares objects that == cannot
 compare

Spatial holds interface values; == panics when both hold a slice or map, which
is the case for every geometry except Point.
---
 rtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 1a2310b..9a73266 100644
--- a/rtree.go
+++ b/rtree.go
@@ -3,6 +3,7 @@ package geo
 import (
 	"fmt"
 	"math"
+	"reflect"
 	"sort"
 	"time"
 )
@@ -530,7 +531,7 @@ func (tree *Rtree) Delete(obj Spatial) bool {
 		if len(object) != 2 {
 			return false
 		}
-		return object[0] == object[1]
+		return reflect.DeepEqual(object[0], object[1])
 	}
 	return tree.DeleteWithComparator(obj, condition)
 }
-- 
2.43.0


From 04affb4b5986cbcff7c81c036a85fb040fec8bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 04/61] fix: DeleteBySpatialID removes every object with the id

The comparator matched any object with the id, so the deletion meant for one
object could take another one in the same leaf, whose own turn then failed and
left the first object stored.
---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 9a73266..d22c559 100644
--- a/rtree.go
+++ b/rtree.go
@@ -541,7 +541,7 @@ func (tree *Rtree) DeleteBySpatialID(id string) bool {
 		if len(object) != 2 {
 			return false
 		}
-		return object[0].ID == object[1].ID
+		return object[0].ID == object[1].ID && reflect.DeepEqual(object[0].Geom, object[1].Geom)
 	}
 	sps := tree.SearchBySpatialID(id)
 	if len(sps) == 0 {
-- 
2.43.0


From 606d4a8528665c0521eb9bcad49d06d9d62a4955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 05/61] fix: InsertWithRandomId makes a different id each time

It formatted the method value tree.Size, a constant, so two insertions within
one clock tick got the same id.
---
 rtree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index d22c559..6e828e4 100644
--- a/rtree.go
+++ b/rtree.go
@@ -14,6 +14,7 @@ type Rtree struct {
 	root        *node
 	size        int
 	height      int
+	randomIDs   int // number of ids made by InsertWithRandomId
 }
 
 func NewRandomIDTree(objs ...Geometry) *Rtree {
@@ -270,9 +271,10 @@ func (tree *Rtree) Insert(obj Spatial) {
 
 // 插入rtree
 func (tree *Rtree) InsertWithRandomId(geom Geometry) {
-	e := entry{BoundingBox(geom), nil, Spatial{fmt.Sprintf("%d_1_%d", time.Now().UnixNano(), tree.Size), nil, geom}}
+	e := entry{BoundingBox(geom), nil, Spatial{fmt.Sprintf("%d_1_%d", time.Now().UnixNano(), tree.randomIDs), nil, geom}}
 	tree.insert(e, 1)
 	tree.size++
+	tree.randomIDs++
 }
 
 // insert adds the specified entry to the tree at the specified level.
-- 
2.43.0


From 5f0aac1d394ef45465e022197ffc110e7203bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 06/61] fix: NearestNeighbors returns nothing when asked for no
 neighbour

k = 0 panicked on trees of more than one level and k < 0 on every tree.
---
 rtree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtree.go b/rtree.go
index 6e828e4..8cdd607 100644
--- a/rtree.go
+++ b/rtree.go
@@ -791,6 +791,9 @@ func (p *Point) minDist(r *Box) float64 {
 
 // NearestNeighbors gets the closest Spatials to the Point.
 func (tree *Rtree) NearestNeighbors(k int, p Point) []Spatial {
+	if k <= 0 {
+		return []Spatial{}
+	}
 	maxBufSize := tree.MaxChildren * tree.Depth()
 	branches := make([]entry, maxBufSize)
 	branchDists := make([]float64, maxBufSize)
-- 
2.43.0


From a6047cd8de9dff00e694593b08ad53ed541303a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 07/61] fix: bounding box of coordinates beyond 2^31

calBox started from +-2^31, so a geometry lying beyond it got a box that
reached back to 2^31.
---
 box.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/box.go b/box.go
index 1ba1f53..9bcae59 100644
--- a/box.go
+++ b/box.go
@@ -48,6 +48,9 @@ func BoxToGeo(b Box) Geometry {
 
 func calBox(points ...Point) *Box {
 	var minX, minY, maxX, maxY float64 = INF, INF, -INF, -INF
+	if len(points) > 0 {
+		minX, minY, maxX, maxY = points[0].X, points[0].Y, points[0].X, points[0].Y
+	}
 	for _, v := range points {
 		if minX > v.X {
 			minX = v.X
-- 
2.43.0


From f6f83cd02bab0169fb9e031b47c702dfac0a84cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 08/61] fix: BoundingBox of 3D geometries and collections

They all got the box (0,0,0,0), which also made them unfindable in an Rtree.
---
 box.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/box.go b/box.go
index 9bcae59..bb3d6a7 100644
--- a/box.go
+++ b/box.go
@@ -96,10 +96,46 @@ func BoundingBox(geom Geometry) *Box {
 			}
 		}
 		return calBox(pois...)
+	case PointZ:
+		return calBoxZ(geom)
+	case MultiPointZ:
+		return calBoxZ(geom...)
+	case LineStringZ:
+		return calBoxZ(geom...)
+	case MultiLineStringZ:
+		var pois []PointZ
+		for _, v := range geom {
+			pois = append(pois, v...)
+		}
+		return calBoxZ(pois...)
+	case PolygonZ:
+		return calBoxZ(geom.GetExteriorPoints()...)
+	case MultiPolygonZ:
+		var pois []PointZ
+		for _, v := range geom {
+			for _, vv := range v {
+				pois = append(pois, vv...)
+			}
+		}
+		return calBoxZ(pois...)
+	case Collection:
+		var boxs []*Box
+		for _, v := range geom {
+			boxs = append(boxs, BoundingBox(v))
+		}
+		return BoxUnion(boxs...)
 	}
 	return &Box{}
 }
 
+func calBoxZ(points ...PointZ) *Box {
+	pois := make([]Point, 0, len(points))
+	for _, v := range points {
+		pois = append(pois, Point{v.X, v.Y})
+	}
+	return calBox(pois...)
+}
+
 func (b1 *Box) Intersect(b2 *Box) bool {
 	if b1 == nil || b2 == nil {
 		return false
-- 
2.43.0


From 0817ff7b7c35fa6c823312bcd19a3aafaa376689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 09/61] fix: BoxToGeo returns a closed ring

The open ring made GetArea(BoxToGeo(box)) half of the area of the box.
---
 box.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box.go b/box.go
index bb3d6a7..b30434a 100644
--- a/box.go
+++ b/box.go
@@ -43,7 +43,7 @@ func BoxToGeo(b Box) Geometry {
 		//元素是条线 x坐标不同
 		return LineString{p1, p2}
 	}
-	return *NewPolygon(LinearRing{p1, p2, p3, p4})
+	return *NewPolygon(LinearRing{p1, p2, p3, p4, p1})
 }
 
 func calBox(points ...Point) *Box {
-- 
2.43.0


From b4bd79acf1d2f10b66995bfc2dd9d396b6622e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 10/61] fix: IsPointOnSegment finds points on the segment

It asked for the bounding box of a *LineString, which BoundingBox does not
know, so only the origin was ever found; IsPointInPolygon never returned
RELA_TOUCH.
---
 relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index 6657564..8a1f446 100644
--- a/relation.go
+++ b/relation.go
@@ -113,7 +113,7 @@ func IsPointOnLine(point Point, line LineString) bool {
 func IsPointOnSegment(p1, p2, point Point) bool {
 	//保证Q点坐标在p1,p2之间 且叉积为0
 	if (point.X-p1.X)*(p2.Y-p1.Y) == (p2.X-p1.X)*(point.Y-p1.Y) &&
-		IsPointInBox(BoundingBox(NewLineString(p1, p2)), point) {
+		IsPointInBox(BoundingBox(*NewLineString(p1, p2)), point) {
 		return true
 	}
 	return false
-- 
2.43.0


From 2767b1f5ee94ed12c54bfc08aa062c4ae368e479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 11/61] fix: SegmentRelation of collinear and T-shaped segments

Collinear segments without a common point were reported as touching, and an
end point lying inside the other segment as disjoint.
---
 relation.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index 8a1f446..d0e4ba8 100644
--- a/relation.go
+++ b/relation.go
@@ -9,6 +9,10 @@ func SegmentRelation(seg1, seg2 LineSegment) GeometryRealation {
 	crss1 := r.Cross(*s)
 	crss2 := q_p.Cross(*r)
 	if crss1 == 0 && crss2 == 0 {
+		if !IsPointOnSegment(seg1.Start, seg1.End, seg2.Start) && !IsPointOnSegment(seg1.Start, seg1.End, seg2.End) &&
+			!IsPointOnSegment(seg2.Start, seg2.End, seg1.Start) && !IsPointOnSegment(seg2.Start, seg2.End, seg1.End) {
+			return RELA_DISJOINT
+		}
 		return RELA_TOUCH
 	} else if crss1 == 0 && crss2 != 0 {
 		return RELA_DISJOINT
@@ -19,7 +23,7 @@ func SegmentRelation(seg1, seg2 LineSegment) GeometryRealation {
 		if res1 > 0 && res1 < 1 && res2 > 0 && res2 < 1 {
 			return RELA_INTERSECT
 		}
-		if (res1 == 0 || res1 == 1) && (res2 == 0 || res2 == 1) {
+		if res1 >= 0 && res1 <= 1 && res2 >= 0 && res2 <= 1 {
 			return RELA_TOUCH
 		}
 	}
-- 
2.43.0


From ef87248b91a1f8db1609e706111ca4bf888e85da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 12/61] fix: IsPointOnLine does not close the line

A point on the straight connection of the end points of an open line was
reported to be on the line.
---
 relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index d0e4ba8..69a3d5e 100644
--- a/relation.go
+++ b/relation.go
@@ -103,7 +103,7 @@ func IsPointOnLine(point Point, line LineString) bool {
 	isOn := false
 	for i := range line {
 		if i == line.GetPointCount()-1 {
-			isOn = IsPointOnSegment(line[0], line[line.GetPointCount()-1], point)
+			isOn = IsPointOnSegment(line[i], line[i], point)
 		} else {
 			isOn = IsPointOnSegment(line[i], line[i+1], point)
 		}
-- 
2.43.0


From 03a164d7d54aadc8604c379b47a48859d9abfd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 13/61] fix: SelfIntersect looks at the closing edge of the
 ring

---
 polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polygon.go b/polygon.go
index 273e699..388a4fe 100644
--- a/polygon.go
+++ b/polygon.go
@@ -85,7 +85,7 @@ func (poly Polygon) SelfIntersect() bool {
 	for i := 0; i < pointCount-1; i++ {
 		srcV0 := exRing[i]
 		srcV1 := exRing[(i+1)%pointCount]
-		for j := i + 1; j < pointCount-2; j++ {
+		for j := i + 1; j < pointCount-1; j++ {
 			dstV0 := exRing[j]
 			dstV1 := exRing[j+1]
 			relation := SegmentRelation(LineSegment{srcV0, srcV1}, LineSegment{dstV0, dstV1})
-- 
2.43.0


From 9226f7b3ffdb0bc33fe3bb2e9335fe4120705e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 14/61] fix: Polygon.Verify takes x for longitude and y for
 latitude

README: x is the longitude, y the latitude. Verify had them exchanged and
rejected every polygon beyond 90 degrees east or west.
---
 polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polygon.go b/polygon.go
index 388a4fe..dcef734 100644
--- a/polygon.go
+++ b/polygon.go
@@ -65,7 +65,7 @@ func (p *Polygon) Verify() error {
 		return errors.New("polygon invaild, point less than 3")
 	}
 	for i := 0; i < ptCount; i++ {
-		if extring[i].X > 90.0 || extring[i].X < -90 || extring[i].Y > 180.0 || extring[i].Y < -180.0 {
+		if extring[i].X > 180.0 || extring[i].X < -180.0 || extring[i].Y > 90.0 || extring[i].Y < -90 {
 			return errors.New("lnglat invaild, lat[-90,90] lng[-180,180]")
 		}
 	}
-- 
2.43.0


From 66905972773185d898d676987d5754bf42848e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 15/61] fix: IsPointInPolygon takes holes into account

---
 contain.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/contain.go b/contain.go
index 6eb0d0f..cbcbe30 100644
--- a/contain.go
+++ b/contain.go
@@ -34,6 +34,14 @@ func IsPointInPolygon(point Point, poly Polygon) GeometryRealation {
 		}
 	}
 	if isIn {
+		for _, hole := range poly.GetInteriorRing() {
+			switch IsPointInPolygon(point, Polygon{hole}) {
+			case RELA_TOUCH:
+				return RELA_TOUCH
+			case RELA_CONTAIN:
+				return RELA_DISJOINT
+			}
+		}
 		return RELA_CONTAIN
 	} else {
 		return RELA_DISJOINT
-- 
2.43.0


From aafbad5de32407c8e151899a1e7fe88a4da0c7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 16/61] fix: SegPolyRelation checks every edge of the polygon

The closing edge and the edges of holes were left out, and a segment with one
end inside that leaves the polygon through a vertex was RELA_UNKNOWN.
---
 relation.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/relation.go b/relation.go
index 69a3d5e..e99e710 100644
--- a/relation.go
+++ b/relation.go
@@ -31,17 +31,18 @@ func SegmentRelation(seg1, seg2 LineSegment) GeometryRealation {
 }
 
 func SegPolyRelation(seg LineSegment, poly Polygon) GeometryRealation {
-	lr := poly.GetExteriorRing()
-	pointCount := lr.GetPointCount()
 	isPointOnBoundary := false
-	for i := 0; i < pointCount-2; i++ {
-		pntStart := lr[i]
-		pntEnd := lr[i+1]
-		relation := SegmentRelation(LineSegment{pntStart, pntEnd}, seg)
-		if relation == RELA_INTERSECT {
-			return RELA_INTERSECT
-		} else if relation == RELA_TOUCH {
-			isPointOnBoundary = true
+	for _, lr := range poly {
+		pointCount := lr.GetPointCount()
+		for i := 0; i < pointCount-1; i++ {
+			pntStart := lr[i]
+			pntEnd := lr[i+1]
+			relation := SegmentRelation(LineSegment{pntStart, pntEnd}, seg)
+			if relation == RELA_INTERSECT {
+				return RELA_INTERSECT
+			} else if relation == RELA_TOUCH {
+				isPointOnBoundary = true
+			}
 		}
 	}
 	flag1 := IsPointInPolygon(seg.Start, poly) == RELA_CONTAIN || IsPointInPolygon(seg.Start, poly) == RELA_TOUCH
@@ -56,7 +57,11 @@ func SegPolyRelation(seg LineSegment, poly Polygon) GeometryRealation {
 	} else if !flag1 && !flag2 && !isPointOnBoundary {
 		return RELA_DISJOINT
 	}
-	return RELA_UNKNOWN
+	//一端在内或边界上，另一端在外
+	if IsPointInPolygon(seg.Start, poly) == RELA_CONTAIN || IsPointInPolygon(seg.End, poly) == RELA_CONTAIN {
+		return RELA_INTERSECT
+	}
+	return RELA_TOUCH
 }
 
 func LinePolyRelation(line LineString, poly Polygon) GeometryRealation {
-- 
2.43.0


From d3ff459cc732cbef58ee8c38ec38a451bac2fb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 17/61] fix: LinearPolyRelation checks the closing edge of the
 ring

---
 relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index e99e710..636fa23 100644
--- a/relation.go
+++ b/relation.go
@@ -85,7 +85,7 @@ func LinearPolyRelation(line LinearRing, poly Polygon) GeometryRealation {
 	//对环进行打断，去掉最后一个点
 	pointCount := line.GetPointCount()
 	curRelation := RELA_UNKNOWN
-	for i := 0; i < pointCount-2; i++ {
+	for i := 0; i < pointCount-1; i++ {
 		Start := line[i]
 		End := line[i+1]
 		relation := SegPolyRelation(LineSegment{Start, End}, poly)
-- 
2.43.0


From 3e48771afa5a7b2e518e838e44564bfdd6be4d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:35 +0000
Subject: [PATCH 18/61] fix: PolyRelation of a polygon around the other one

The ring of the outer polygon has no point in common with the inner polygon,
so the two were reported as disjoint.
---
 relation.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index 636fa23..fab1226 100644
--- a/relation.go
+++ b/relation.go
@@ -101,7 +101,11 @@ func LinearPolyRelation(line LinearRing, poly Polygon) GeometryRealation {
 
 func PolyRelation(poly1, poly2 Polygon) GeometryRealation {
 	lr := poly1.GetExteriorRing()
-	return LinearPolyRelation(lr, poly2)
+	relation := LinearPolyRelation(lr, poly2)
+	if relation == RELA_DISJOINT && LinearPolyRelation(poly2.GetExteriorRing(), poly1) != RELA_DISJOINT {
+		return RELA_INTERSECT
+	}
+	return relation
 }
 
 func IsPointOnLine(point Point, line LineString) bool {
-- 
2.43.0


From 2891c1b2204294167504c36c39bdef6af48859d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 19/61] fix: area of polygons with holes

---
 calcaulation.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calcaulation.go b/calcaulation.go
index 1fc39e7..25a27d1 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -63,7 +63,11 @@ func relativeArea(poly Polygon) float64 {
 }
 
 func polyArea(poly Polygon) float64 {
-	return math.Abs(relativeArea(poly))
+	area := math.Abs(relativeArea(poly))
+	for _, hole := range poly.GetInteriorRing() {
+		area -= math.Abs(relativeArea(Polygon{hole}))
+	}
+	return area
 }
 
 func MultiPolyArea(multiPoly MultiPolygon) float64 {
-- 
2.43.0


From 25a3ffeeaea3f3a26ca0a39639f4c23f3140dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 20/61] fix: centroid of polygons with holes

---
 calcaulation.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/calcaulation.go b/calcaulation.go
index 25a27d1..e2fe79f 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -211,6 +211,21 @@ func polyCentroid(poly Polygon) Point {
 	}
 	centroidX *= 1 / (6 * signArea / 2)
 	centroidY *= 1 / (6 * signArea / 2)
+	if len(poly) > 1 {
+		area := math.Abs(signArea / 2)
+		centroidX, centroidY = centroidX*area, centroidY*area
+		for _, hole := range poly.GetInteriorRing() {
+			holeArea := polyArea(Polygon{hole})
+			if holeArea == 0 {
+				continue
+			}
+			c := polyCentroid(Polygon{hole})
+			centroidX -= c.X * holeArea
+			centroidY -= c.Y * holeArea
+			area -= holeArea
+		}
+		return Point{centroidX / area, centroidY / area}
+	}
 	return Point{centroidX, centroidY}
 }
 
-- 
2.43.0


From d517a8fe739cfe8d759fb63365546de47f1aee17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 21/61] fix: centroid of a line of less than two points

NewRingFromLine returns nil for it and lineCentroid dereferenced that.
---
 calcaulation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/calcaulation.go b/calcaulation.go
index e2fe79f..3f35c79 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -184,6 +184,9 @@ func Centroid(geo Geometry) Point {
 
 //TODO:如果线在一条直线上，需要改进算法
 func lineCentroid(line LineString) Point {
+	if line.GetPointCount() < 2 {
+		return pointsCenteriod(line...)
+	}
 	return LinearCentroid(*NewRingFromLine(line))
 }
 
-- 
2.43.0


From 4119f52c16247726b411781f33c8f1fda2eb4041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 22/61] fix: ConvexHull of more than twelve points, and of the
 caller's slice

sort.Sort moved the pivot p[0], against which Less compares, as soon as the
slice was longer than what it sorts by insertion, and the hull came out wrong.
The sort also reordered the caller's points.
---
 convexhull.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/convexhull.go b/convexhull.go
index 7ef65da..dafddcc 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -50,10 +50,13 @@ func ConvexHull(pts ...Point) Polygon {
 	if len(pts) < 3 {
 		return nil
 	}
-	points := hullPts(pts)
+	points := append(hullPts{}, pts...)
 	var stack hullPts
 	points.FindLowestPoint()
-	sort.Sort(&points)
+	pivot, rest := points[0], points[1:]
+	sort.Slice(rest, func(i, j int) bool {
+		return hullPts{pivot, rest[i], rest[j]}.Less(1, 2)
+	})
 	stack = append(stack, points[0])
 	stack = append(stack, points[1])
 	i := 2
-- 
2.43.0


From ef5779653e93d85e84be61cf23f85db78da5c0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 23/61] fix: Mbr tries the directions of the hull's edges

It tried the lines between consecutive input points, none of which need be an
edge of the hull, so the rectangle was not the smallest.
---
 mbr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbr.go b/mbr.go
index 9219884..b75174d 100644
--- a/mbr.go
+++ b/mbr.go
@@ -30,6 +30,7 @@ func Mbr(geom Geometry) Polygon {
 	if math.IsNaN(cpt.X) || math.IsNaN(cpt.Y) {
 		return nil
 	}
+	coords = convexHull.GetExteriorPoints()
 	minArea := math.MaxFloat64
 	minAngle := 0.0
 	ci := coords[0]
-- 
2.43.0


From 8b04f15a72a041faef0a3735d7e115544ad74445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 24/61] fix: RotateCW keeps the holes of a polygon

---
 calcaulation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/calcaulation.go b/calcaulation.go
index 3f35c79..73c178a 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -289,7 +289,13 @@ func RotateCW(geo Geometry, center Point, angle float64) Geometry {
 			geo1 := RotateCW(v, center, angle)
 			pts = append(pts, geo1.(Point))
 		}
-		return *NewPolygonFromPois(pts...)
+		res := NewPolygonFromPois(pts...)
+		for _, hole := range poly.GetInteriorRing() {
+			if geo1, ok := RotateCW(Polygon{hole}, center, angle).(Polygon); ok {
+				res.AddInteriorRing(geo1.GetExteriorRing())
+			}
+		}
+		return *res
 	}
 	return nil
 }
-- 
2.43.0


From 2ef9d2af65f7c2e02c8df745c338055de0c0a372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 25/61] fix: distance to a segment of length zero

0/0 made the result NaN; among others this made DouglasPeuckerSimplify drop
every inner point of a closed line.
---
 calcaulation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/calcaulation.go b/calcaulation.go
index 73c178a..b49fd2e 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -136,7 +136,7 @@ func PointToSegmentDistance(point, p1, p2 Point, srid SRID) (float64, Point) {
 	var u float64 = ((point.X-p1.X)*xDelta + (point.Y-p1.Y)*yDelta) / (xDelta*xDelta + yDelta*yDelta)
 
 	var closestPointOnLine Point
-	if u < 0 {
+	if math.IsNaN(u) || u < 0 {
 		closestPointOnLine = p1
 	} else if u > 1 {
 		closestPointOnLine = p2
@@ -153,6 +153,9 @@ func PointToLineDistance(point, p1, p2 Point, srid SRID) (float64, Point, float6
 	var xDelta float64 = p2.X - p1.X
 	var yDelta float64 = p2.Y - p1.Y
 	var u float64 = ((point.X-p1.X)*xDelta + (point.Y-p1.Y)*yDelta) / (xDelta*xDelta + yDelta*yDelta)
+	if math.IsNaN(u) {
+		u = 0
+	}
 
 	var closestPointOnLine Point
 	if u < 0 {
-- 
2.43.0


From 1273a3294ed067b449d0ce6be14479f5c3f696ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 26/61] fix: PointPolygonDistance measures to the holes as well

---
 calcaulation.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index b49fd2e..25b1880 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -240,18 +240,19 @@ func PointPolygonDistance(p Point, poly Polygon, srid SRID) float64 {
 		return 0
 	}
 	var distance = INF
-	lr := poly.GetExteriorRing()
-	ptCount := lr.GetPointCount() - 1
-	for i := 0; i < ptCount; i++ {
-		//最后一个点的处理
-		j := (i + 1) % ptCount
-		var previousPoint Point = lr[i]
-		var currentPoint Point = lr[j]
-
-		segmentDistance, _ := PointToSegmentDistance(p, previousPoint, currentPoint, srid)
-
-		if segmentDistance < distance {
-			distance = segmentDistance
+	for _, lr := range poly {
+		ptCount := lr.GetPointCount() - 1
+		for i := 0; i < ptCount; i++ {
+			//最后一个点的处理
+			j := (i + 1) % ptCount
+			var previousPoint Point = lr[i]
+			var currentPoint Point = lr[j]
+
+			segmentDistance, _ := PointToSegmentDistance(p, previousPoint, currentPoint, srid)
+
+			if segmentDistance < distance {
+				distance = segmentDistance
+			}
 		}
 	}
 	return distance
-- 
2.43.0


From ca39338cca3ed85a53d1b86c95956eb3ed2d7441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 27/61] fix: DouglasPeuckerSimplify leaves the caller's line
 alone

Dropping points in place shifted the points of the input line.
---
 simplify.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simplify.go b/simplify.go
index 95a300a..f670955 100644
--- a/simplify.go
+++ b/simplify.go
@@ -11,6 +11,7 @@ func DouglasPeuckerSimplify(line LineString, threshold float64, srid SRID) LineS
 	//排序，从后往前删
 	sort.Sort(sort.Reverse(sort.IntSlice(delIndexs)))
 
+	line = append(LineString{}, line...)
 	for _, v := range delIndexs {
 		line = append(line[:v], line[v+1:]...)
 	}
-- 
2.43.0


From 2eb5f15a3b922ca5fba20f0ee17900c67afff2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 28/61] fix: LineString.InsertPoint at the end inserts one
 point

The point was appended and then inserted again in front of itself.
---
 lineString.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineString.go b/lineString.go
index 2d673f9..f1d3a4a 100644
--- a/lineString.go
+++ b/lineString.go
@@ -83,7 +83,7 @@ func (line *LineString) InsertPoint(position int, point Point) error {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
-		line.Append(point)
+		return line.Append(point)
 	}
 	*line = append((*line)[:position+1], (*line)[position:]...)
 	(*line)[position] = point
-- 
2.43.0


From 255888c8002f60de927bae3fcc485855c381b7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 29/61] fix: LineString positions below zero are errors

Positions beyond the end return an error (or nil); negative ones panicked.
---
 lineString.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lineString.go b/lineString.go
index f1d3a4a..e31d4c8 100644
--- a/lineString.go
+++ b/lineString.go
@@ -54,7 +54,7 @@ func (line LineString) GetEndPoint() *Point {
 
 //取特定点
 func (line LineString) GetPoint(index int) *Point {
-	if index > line.GetPointCount()-1 {
+	if index < 0 || index > line.GetPointCount()-1 {
 		return nil
 	}
 	return &line[index]
@@ -67,7 +67,7 @@ func (line *LineString) Append(point Point) error {
 
 //在指定位置改变linestring的点
 func (line *LineString) SetPoint(position int, point Point) error {
-	if line.GetPointCount() < position {
+	if position < 0 || line.GetPointCount() < position {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
@@ -79,7 +79,7 @@ func (line *LineString) SetPoint(position int, point Point) error {
 
 //在指定位置插入点
 func (line *LineString) InsertPoint(position int, point Point) error {
-	if line.GetPointCount() < position {
+	if position < 0 || line.GetPointCount() < position {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
@@ -92,7 +92,7 @@ func (line *LineString) InsertPoint(position int, point Point) error {
 
 //在指定位置删除点
 func (line *LineString) DelPoint(position int) error {
-	if line.GetPointCount() <= position {
+	if position < 0 || line.GetPointCount() <= position {
 		return errors.New("line has no such position")
 	}
 	(*line) = append((*line)[:position], (*line)[position+1:]...)
-- 
2.43.0


From abd443cdb00b40a7b55aa3f55a5402b26aab91bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 30/61] fix: lines of different length are not equal

Equal panicked when the second line was shorter and said true when it went on
after the end of the first.
---
 lineString.go  | 3 +++
 lineStringZ.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lineString.go b/lineString.go
index e31d4c8..4dd2b4e 100644
--- a/lineString.go
+++ b/lineString.go
@@ -109,6 +109,9 @@ func (line LineString) Length() float64 {
 
 //判断两条线是不是相同
 func (line1 LineString) Equal(line2 LineString) bool {
+	if line1.GetPointCount() != line2.GetPointCount() {
+		return false
+	}
 	for i := 0; i < line1.GetPointCount(); i++ {
 		if !line1[i].Equal(line2[i]) {
 			return false
diff --git a/lineStringZ.go b/lineStringZ.go
index dad543b..e0c1b8a 100644
--- a/lineStringZ.go
+++ b/lineStringZ.go
@@ -38,6 +38,9 @@ func (line *LineStringZ) Append(point PointZ) error {
 
 //判断两条线是不是相同
 func (line1 LineStringZ) Equal(line2 LineStringZ) bool {
+	if line1.GetPointCount() != line2.GetPointCount() {
+		return false
+	}
 	for i := 0; i < line1.GetPointCount(); i++ {
 		if !line1[i].Equal(line2[i]) {
 			return false
-- 
2.43.0


From b61777b7df8b7b53e303f5b6ecdfc903a49a94f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 31/61] fix: closing a ring does not write behind the caller's
 line

NewRingFromLine and NewRingFromLineZ appended the closing point in the spare
capacity of the line, where another line may have its points.
---
 linearRing.go  | 2 +-
 linearRingZ.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/linearRing.go b/linearRing.go
index 6751f00..4894e52 100644
--- a/linearRing.go
+++ b/linearRing.go
@@ -22,7 +22,7 @@ func NewRingFromLine(line LineString) *LinearRing {
 		linearRing := LinearRing(line)
 		return &linearRing
 	} else {
-		line = append(line, firstPoint)
+		line = append(line[:len(line):len(line)], firstPoint)
 		linearRing := LinearRing(line)
 		return &linearRing
 	}
diff --git a/linearRingZ.go b/linearRingZ.go
index f1575f0..74495f4 100644
--- a/linearRingZ.go
+++ b/linearRingZ.go
@@ -18,7 +18,7 @@ func NewRingFromLineZ(line LineStringZ) *LinearRingZ {
 		LinearRingZ := LinearRingZ(line)
 		return &LinearRingZ
 	} else {
-		line = append(line, firstPoint)
+		line = append(line[:len(line):len(line)], firstPoint)
 		LinearRingZ := LinearRingZ(line)
 		return &LinearRingZ
 	}
-- 
2.43.0


From bd2dadb60fb79a56252295ec2f5d7e8ab9bc3d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 32/61] fix: the parts made by SplitByIndex are independent

They shared the split point and the capacity: appending to the first part
overwrote the second one.
---
 lineString.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lineString.go b/lineString.go
index 4dd2b4e..d8e2a46 100644
--- a/lineString.go
+++ b/lineString.go
@@ -138,7 +138,7 @@ func (line LineString) GetPointSet() []Point {
 
 //从指定位置分成两条线
 func (line LineString) SplitByIndex(index int) (LineString, LineString) {
-	line1 := line[:index+1]
-	line2 := line[index:]
+	line1 := append(LineString{}, line[:index+1]...)
+	line2 := append(LineString{}, line[index:]...)
 	return line1, line2
 }
-- 
2.43.0


From 077924a6390639d2f8266fb918148cbdd41b451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 33/61] fix: polygons and rings from too few points

NewRingFromLine returns nil for less than two points; NewPolygonFromPois and
ToRing dereferenced it, and the Z variants panicked on an empty line.
---
 lineString.go  | 6 +++++-
 lineStringZ.go | 6 +++++-
 linearRingZ.go | 3 +++
 polygon.go     | 3 +++
 polygonZ.go    | 3 +++
 5 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/lineString.go b/lineString.go
index d8e2a46..a510961 100644
--- a/lineString.go
+++ b/lineString.go
@@ -129,7 +129,11 @@ func (line *LineString) Reverse() {
 }
 
 func (line LineString) ToRing() LinearRing {
-	return *NewRingFromLine(line)
+	ring := NewRingFromLine(line)
+	if ring == nil {
+		return nil
+	}
+	return *ring
 }
 
 func (line LineString) GetPointSet() []Point {
diff --git a/lineStringZ.go b/lineStringZ.go
index e0c1b8a..30ab28d 100644
--- a/lineStringZ.go
+++ b/lineStringZ.go
@@ -58,7 +58,11 @@ func (line *LineStringZ) Reverse() {
 }
 
 func (line LineStringZ) ToRing() LinearRingZ {
-	return *NewRingFromLineZ(line)
+	ring := NewRingFromLineZ(line)
+	if ring == nil {
+		return nil
+	}
+	return *ring
 }
 
 func (line LineStringZ) GetPointSet() []PointZ {
diff --git a/linearRingZ.go b/linearRingZ.go
index 74495f4..1a9d4b7 100644
--- a/linearRingZ.go
+++ b/linearRingZ.go
@@ -12,6 +12,9 @@ func NewLinearRingZ(point ...PointZ) *LinearRingZ {
 }
 
 func NewRingFromLineZ(line LineStringZ) *LinearRingZ {
+	if len(line) < 2 {
+		return nil
+	}
 	firstPoint := line[0]
 	endPoint := line[len(line)-1]
 	if firstPoint.Equal(endPoint) {
diff --git a/polygon.go b/polygon.go
index dcef734..c1a63f5 100644
--- a/polygon.go
+++ b/polygon.go
@@ -15,6 +15,9 @@ func NewPolygon(lrs ...LinearRing) *Polygon {
 
 func NewPolygonFromPois(pts ...Point) *Polygon {
 	ring := NewLinearRing(pts...)
+	if ring == nil {
+		return NewPolygon()
+	}
 	return NewPolygon(*ring)
 }
 
diff --git a/polygonZ.go b/polygonZ.go
index d906781..0a1a256 100644
--- a/polygonZ.go
+++ b/polygonZ.go
@@ -13,6 +13,9 @@ func NewPolygonZ(lrs ...LinearRingZ) *PolygonZ {
 
 func NewPolygonZFromPois(pts ...PointZ) *PolygonZ {
 	ring := NewLinearRingZ(pts...)
+	if ring == nil {
+		return NewPolygonZ()
+	}
 	return NewPolygonZ(*ring)
 }
 
-- 
2.43.0


From 5c32a9ae871ad87f62d72b1a8190a037fa3b5a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 34/61] fix: EuclideanDisZ is the distance of its two points

It returned the distance of the first one from the origin.
---
 pointZ.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointZ.go b/pointZ.go
index 46ff89b..8884a55 100644
--- a/pointZ.go
+++ b/pointZ.go
@@ -27,7 +27,7 @@ func (p *PointZ) SetZ(z float64) {
 }
 
 func EuclideanDisZ(p1, p2 PointZ) float64 {
-	return math.Sqrt(p1.X*p1.X + p1.Y*p1.Y + p1.Z*p1.Z)
+	return math.Sqrt((p1.X-p2.X)*(p1.X-p2.X) + (p1.Y-p2.Y)*(p1.Y-p2.Y) + (p1.Z-p2.Z)*(p1.Z-p2.Z))
 }
 
 //判断元素是否相等
-- 
2.43.0


From 804275ceb4b2d9be7d623dc91e604b79ca330e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 35/61] fix: CacConvex recognises a flat angle

sin(pi) is not zero in floating point, so a flat angle was reported as concave
or convex.
---
 calcaulation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/calcaulation.go b/calcaulation.go
index 25b1880..8618bd0 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -106,6 +106,9 @@ func CacConvex(p1, p2, p3 Point) (int8, error) {
 	if err != nil {
 		return -1, err
 	}
+	if Area2(p1, p2, p3) == 0 {
+		return 2, nil
+	}
 	res := math.Sin(theata)
 	if res < 0 {
 		return 0, nil
-- 
2.43.0


From f537bb28652dcfdf42d75751641d6aff3fd96d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 36/61] fix: SetSrid stores into SridMap, which was nil

---
 srid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srid.go b/srid.go
index 2ce468a..ee3df19 100644
--- a/srid.go
+++ b/srid.go
@@ -1,3 +1,3 @@
 package geo
 
-var SridMap map[interface{}]uint64
+var SridMap = map[interface{}]uint64{}
-- 
2.43.0


From fff3fb96f9c25e4c38826ff8b1fc76d698d8f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 37/61] fix: great circle distance of nearly equal or antipodal
 points

Rounding takes the argument of acos, or 1-a in the haversine formula, out of
its domain and the distance was NaN.
---
 point.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/point.go b/point.go
index 2c0e1e2..57893f7 100644
--- a/point.go
+++ b/point.go
@@ -47,7 +47,7 @@ func CoordDistance(p1, p2 Point) float64 {
 	lat2 := p2.Y * math.Pi / 180.0
 	lng2 := p2.X * math.Pi / 180.0
 	a := math.Pow(math.Sin((lat2-lat1)/2), 2) + math.Cos(lat1)*math.Cos(lat2)*math.Pow(math.Sin((lng2-lng1)/2), 2)
-	return 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a)) * EARTHRADIUSMI
+	return 2 * math.Atan2(math.Sqrt(a), math.Sqrt(math.Max(0, 1-a))) * EARTHRADIUSMI
 }
 
 func CoordGreateCircle(p1, p2 Point) float64 {
@@ -55,7 +55,8 @@ func CoordGreateCircle(p1, p2 Point) float64 {
 	lng1 := p1.X * math.Pi / 180.0
 	lat2 := p2.Y * math.Pi / 180.0
 	lng2 := p2.X * math.Pi / 180.0
-	return math.Acos(math.Sin(lat1)*math.Sin(lat2)+math.Cos(lat1)*math.Cos(lat2)*math.Cos(lng2-lng1)) * EARTHRADIUSMI
+	cosc := math.Sin(lat1)*math.Sin(lat2) + math.Cos(lat1)*math.Cos(lat2)*math.Cos(lng2-lng1)
+	return math.Acos(math.Max(-1, math.Min(1, cosc))) * EARTHRADIUSMI
 }
 
 // 根据距离和方位角进行下一个点的计算，TODO
-- 
2.43.0


From 2a497a9f2e3d16ec172929f0e0f12ca58acfac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 38/61] fix: UTM zone of longitude 180

It was zone 61, which does not exist.
---
 utm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utm.go b/utm.go
index 30233e8..6666f23 100755
--- a/utm.go
+++ b/utm.go
@@ -266,6 +266,9 @@ func latLonToZoneNumber(latitude float64, longitude float64) int {
 		}
 	}
 
+	if longitude >= 180 {
+		return 60
+	}
 	return int((longitude+180)/6) + 1
 }
 
-- 
2.43.0


From 051c2d5897960e0ab964dacd09aa8b71f597527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 39/61] fix: UTM zone letter of latitude 84 is X

Latitude 84 is valid but got the letter " ", which ToLatLon rejects.
---
 utm.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utm.go b/utm.go
index 6666f23..f50cc16 100755
--- a/utm.go
+++ b/utm.go
@@ -46,7 +46,6 @@ func rad(d float64) float64 { return d * x }
 func deg(r float64) float64 { return r / x }
 
 var zoneLetters = []zoneLetter{
-	{84, " "},
 	{72, "X"},
 	{64, "W"},
 	{56, "V"},
-- 
2.43.0


From dd0808deaa9880526c4a10f197ae08d3c9f91040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 40/61] fix: the equator is on the northern hemisphere of UTM

Its northing is 0, counted from the equator, so "S" made it the south pole.
---
 utm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utm.go b/utm.go
index f50cc16..5f1e037 100755
--- a/utm.go
+++ b/utm.go
@@ -201,7 +201,7 @@ func FromLatLon(latitude, longitude float64, northern bool) (easting, northing f
 
 	if northern {
 		// N north, S south
-		if latitude > 0 {
+		if latitude >= 0 {
 			zoneLetter = "N"
 		} else {
 			zoneLetter = "S"
-- 
2.43.0


From 2bca4ec14e795caffccd072a43bd67dd5b4abca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 41/61] fix: S2RegionCoverer leaves the caller's polygon alone

It reversed the points of a counter-clockwise polygon in place.
---
 googleS2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/googleS2.go b/googleS2.go
index 25499ff..a481308 100644
--- a/googleS2.go
+++ b/googleS2.go
@@ -50,7 +50,7 @@ func S2GetAllNeighbors(cellID uint64, srid SRID) []uint64 {
 
 func S2RegionCoverer(poly Polygon, level int, srid SRID) []uint64 {
 	if poly.IsCCW() {
-		pois := poly.GetExteriorRing().GetPointSet()
+		pois := append([]Point{}, poly.GetExteriorRing().GetPointSet()...)
 		for i, j := 0, len(pois)-1; i < j; i, j = i+1, j-1 {
 			pois[i], pois[j] = pois[j], pois[i]
 		}
-- 
2.43.0


From d111f0fa4680638687c615c9aecb2e642820afd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 42/61] fix: wkt.Decode of multi-part geometries

FindStringSubmatch returns one match and its sub-match: a polygon came back
with its first ring twice and without the others, multi line strings and multi
polygons likewise, and rings of 3D points were not recognised at all.
---
 wkt/decode.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/wkt/decode.go b/wkt/decode.go
index 4b0ad79..31d26c0 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -101,9 +101,21 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 
 }
 
+// splitGroups returns all the groups in wkt that match the pattern; between them there
+// can only be commas and spaces.
+func splitGroups(pattern, wkt string) ([]string, error) {
+	re := regexp.MustCompile(pattern)
+	if strings.Trim(re.ReplaceAllString(wkt, ""), ", ") != "" {
+		return nil, errors.New("wkt format is error")
+	}
+	return re.FindAllString(wkt, -1), nil
+}
+
 func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`(\ *[(]\ *(?:\ *(?:[0-9-.Ee]+[ ]+[0-9-.Ee]+)[, ]*\ *)*\ *[)])[, ]*`)
-	matches := re.FindStringSubmatch(wkt)
+	matches, err := splitGroups(`[(][^()]*[)]`, wkt)
+	if err != nil {
+		return nil, err
+	}
 	var ml geo.MultiLineString
 	var mlz geo.MultiLineStringZ
 	for _, v := range matches {
@@ -129,8 +141,14 @@ func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func PolygonFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`(\ *[(]\ *(?:\ *(?:[0-9-.Ee]+[ ]+[0-9-.Ee]+)[, ]*\ *)*\ *[)])[, ]*`)
-	matches := re.FindStringSubmatch(wkt)
+	wkt = strings.Trim(wkt, " ")
+	if strings.HasPrefix(wkt, "((") && strings.HasSuffix(wkt, "))") {
+		wkt = wkt[1 : len(wkt)-1]
+	}
+	matches, err := splitGroups(`[(][^()]*[)]`, wkt)
+	if err != nil {
+		return nil, err
+	}
 	var poly geo.Polygon
 	var polyz geo.PolygonZ
 	for _, v := range matches {
@@ -156,8 +174,10 @@ func PolygonFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`([(](?:\ *[(]\ *(?:\ *(?:[0-9-.]+[ ]+[0-9-.]+)[, ]*\ *)*\ *[)][, ]*)*[)])`)
-	matches := re.FindStringSubmatch(wkt)
+	matches, err := splitGroups(`[(](?: *[(][^()]*[)][, ]*)+[)]`, wkt)
+	if err != nil {
+		return nil, err
+	}
 	var multiPoly geo.MultiPolygon
 	var multiPolyZ geo.MultiPolygonZ
 	for _, v := range matches {
@@ -188,7 +208,7 @@ func Decode(wkt string) (geo.Geometry, error) {
 	wkt = strings.Replace(wkt, ", ", ",", -1)
 	re := regexp.MustCompile(`([A-Z]+)\s*[(]\s*(\(*.+\)*)\s*[)]`)
 	match := re.FindStringSubmatch(wkt)
-	if len(match) != 3 {
+	if len(match) != 3 || strings.Count(wkt, "(") != strings.Count(wkt, ")") {
 		return nil, errors.New("wkt format is error")
 	}
 	switch match[1] {
-- 
2.43.0


From 0d4398b87860fc9beb59392d7ed66541b2454620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 43/61] fix: wkt.Decode reports wrong numbers of coordinates

A point of one coordinate made it panic, points of four were dropped, two and
three dimensional points could be mixed, with the former kept only, and a
second space between the coordinates was an error.
---
 wkt/decode.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/wkt/decode.go b/wkt/decode.go
index 31d26c0..6c34538 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -10,7 +10,10 @@ import (
 )
 
 func PointFromWKT(wkt string) (geo.Geometry, error) {
-	strs := strings.Split(strings.Trim(wkt, " "), " ")
+	strs := strings.Fields(wkt)
+	if len(strs) != 2 && len(strs) != 3 {
+		return nil, errors.New("point needs two or three coordinates")
+	}
 	x, err := strconv.ParseFloat(strs[0], 64)
 	if err != nil {
 		return geo.Point{}, err
@@ -37,7 +40,10 @@ func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
 	var mp geo.MultiPoint
 	var mpz geo.MultiPointZ
 	for _, term := range terms {
-		strs := strings.Split(strings.TrimRight(strings.TrimLeft(term, "("), ")"), " ")
+		strs := strings.Fields(strings.Trim(term, "() "))
+		if len(strs) != 2 && len(strs) != 3 {
+			return nil, errors.New("point needs two or three coordinates")
+		}
 		x, err := strconv.ParseFloat(strs[0], 64)
 		if err != nil {
 			return nil, err
@@ -56,6 +62,9 @@ func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
 			mp.Append(geo.Point{x, y})
 		}
 	}
+	if len(mp) != 0 && len(mpz) != 0 {
+		return nil, errors.New("points of different dimension")
+	}
 	if len(mp) != 0 {
 		return mp, nil
 	} else if len(mpz) != 0 {
@@ -72,7 +81,10 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 	var linestring geo.LineString
 	var linestringZ geo.LineStringZ
 	for _, term := range terms {
-		strs := strings.Split(strings.Trim(term, " "), " ")
+		strs := strings.Fields(term)
+		if len(strs) != 2 && len(strs) != 3 {
+			return nil, errors.New("point needs two or three coordinates")
+		}
 		x, err := strconv.ParseFloat(strs[0], 64)
 		if err != nil {
 			return nil, err
@@ -91,6 +103,9 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 			linestring.Append(geo.Point{x, y})
 		}
 	}
+	if len(linestring) > 0 && len(linestringZ) > 0 {
+		return nil, errors.New("points of different dimension")
+	}
 	if len(linestring) > 0 {
 		return linestring, nil
 	} else if len(linestringZ) > 0 {
@@ -131,6 +146,9 @@ func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
 			mlz = append(mlz, lineZ)
 		}
 	}
+	if len(ml) > 0 && len(mlz) > 0 {
+		return nil, errors.New("lines of different dimension")
+	}
 	if len(ml) > 0 {
 		return ml, nil
 	} else if len(mlz) > 0 {
@@ -164,6 +182,9 @@ func PolygonFromWKT(wkt string) (geo.Geometry, error) {
 			polyz = append(polyz, line.ToRing())
 		}
 	}
+	if len(poly) > 0 && len(polyz) > 0 {
+		return nil, errors.New("rings of different dimension")
+	}
 	if len(poly) > 0 {
 		return poly, nil
 	} else if len(polyz) > 0 {
@@ -194,6 +215,9 @@ func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
 		}
 
 	}
+	if len(multiPoly) > 0 && len(multiPolyZ) > 0 {
+		return nil, errors.New("polygons of different dimension")
+	}
 	if len(multiPoly) > 0 {
 		return multiPoly, nil
 	} else if len(multiPolyZ) > 0 {
-- 
2.43.0


From 5a73312af23e19034ed98a5cb26ed8e78d2b178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 44/61] fix: MarshalGeo of PolygonZ

It was handed to the two dimensional conversion, which refuses it.
---
 geojson/geojson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geojson/geojson.go b/geojson/geojson.go
index 9005eb7..ef60a8a 100644
--- a/geojson/geojson.go
+++ b/geojson/geojson.go
@@ -75,7 +75,7 @@ func MarshalGeo(geom geo.Geometry) ([]byte, error) {
 		}
 	case geo.PolygonZ:
 		geoj.Type = "Polygon"
-		geoj.Coordinates, err = ConvertPathSet(geom)
+		geoj.Coordinates, err = ConvertPathZSet(geom)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 227f4540bba146f1b4b8545acb2450fc67f7ab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 45/61] fix: UnmarshalGeo reports malformed GeoJSON

Coordinates of the wrong shape made it panic, and an unknown type was returned
as a nil geometry without an error.
---
 geojson/geojson.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/geojson/geojson.go b/geojson/geojson.go
index ef60a8a..e882083 100644
--- a/geojson/geojson.go
+++ b/geojson/geojson.go
@@ -98,8 +98,16 @@ func MarshalGeo(geom geo.Geometry) ([]byte, error) {
 }
 
 func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
+	if gjson == nil {
+		return nil, errors.New("no geojson")
+	}
 	switch gjson.Type {
 	case "Point":
+		if position, err := decodePosition(gjson.Coordinates); err != nil {
+			return nil, err
+		} else if err := checkPositions(position); err != nil {
+			return nil, err
+		}
 		isZ := isInterPointZ(gjson.Coordinates)
 		if isZ {
 			return inter2PointZ(gjson.Coordinates), nil
@@ -108,6 +116,11 @@ func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
 	case "MultiPoint":
 		return nil, errors.New("Not Support MultiPoint (TODO)")
 	case "LineString":
+		if positions, err := decodePositionSet(gjson.Coordinates); err != nil {
+			return nil, err
+		} else if err := checkPositions(positions...); err != nil {
+			return nil, err
+		}
 		isZ := isInterLineZ(gjson.Coordinates)
 		if isZ {
 			return inter2LineStringZ(gjson.Coordinates), nil
@@ -116,6 +129,17 @@ func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
 	case "MultiLineString":
 		return nil, errors.New("Not Support MultiLineString (TODO)")
 	case "Polygon":
+		rings, err := decodePathSet(gjson.Coordinates)
+		if err != nil {
+			return nil, err
+		}
+		var positions [][]float64
+		for _, ring := range rings {
+			positions = append(positions, ring...)
+		}
+		if err := checkPositions(positions...); err != nil {
+			return nil, err
+		}
 		isZ := isInterPolygonZ(gjson.Coordinates)
 		if isZ {
 			return inter2PolygonZ(gjson.Coordinates), nil
@@ -124,7 +148,17 @@ func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
 	case "MultiPolygon":
 		return nil, errors.New("Not Support MultiPolygon (TODO)")
 	}
-	return nil, nil
+	return nil, fmt.Errorf("unknown geometry type %q", gjson.Type)
+}
+
+// checkPositions tells whether the positions all have two or all have three coordinates.
+func checkPositions(positions ...[]float64) error {
+	for _, position := range positions {
+		if len(position) != 2 && len(position) != 3 || len(position) != len(positions[0]) {
+			return fmt.Errorf("not a valid position, got %v", position)
+		}
+	}
+	return nil
 }
 
 // func (c Collection) ToGeojson() ([]byte, error) {
-- 
2.43.0


From bd3d1bffdebe73fd57dc4672a2a1eb69fa659949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 46/61] fix: Feature.SetBoundingBox sets the bounding box

With a value receiver it set that of a copy.
---
 geojson/feature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geojson/feature.go b/geojson/feature.go
index faac598..b8be919 100644
--- a/geojson/feature.go
+++ b/geojson/feature.go
@@ -29,7 +29,7 @@ func NewFeature(geometry geo.Geometry) *Feature {
 	}
 }
 
-func (f Feature) SetBoundingBox() {
+func (f *Feature) SetBoundingBox() {
 	box := geo.BoundingBox(f.Geometry)
 	f.BoundingBox = []float64{box.MinX, box.MinY, box.MaxX, box.MaxY}
 }
-- 
2.43.0


From 34e5e00f3dc3927de70d63de3edd35ba9cbd7591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:15 +0000
Subject: [PATCH 47/61] fix: area and centroid of small polygons far from the
 origin

The shoelace terms were products of absolute coordinates: for a building of
1e-4 degrees at (113, 23) the centroid fell some 1e-3 degrees outside of it.
---
 calcaulation.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index 8618bd0..380920a 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -55,8 +55,8 @@ func relativeArea(poly Polygon) float64 {
 	for i := 0; i < ptCount; i++ {
 		//最后一个点的处理
 		j := (i + 1) % ptCount
-		area += lr[i].X * lr[j].Y
-		area -= lr[i].Y * lr[j].X
+		area += (lr[i].X - lr[0].X) * (lr[j].Y - lr[0].Y)
+		area -= (lr[i].Y - lr[0].Y) * (lr[j].X - lr[0].X)
 	}
 	area /= 2
 	return area
@@ -211,15 +211,20 @@ func polyCentroid(poly Polygon) Point {
 	for i := 0; i < ptCount; i++ {
 		//最后一个点的处理
 		j := (i + 1) % ptCount
-		centroidX += (lr[i].X + lr[j].X) * (lr[i].X*lr[j].Y - lr[j].X*lr[i].Y)
-		centroidY += (lr[i].Y + lr[j].Y) * (lr[i].X*lr[j].Y - lr[j].X*lr[i].Y)
-		signArea += lr[i].X*lr[j].Y - lr[j].X*lr[i].Y
+		//相对第一个点计算，避免离原点远的小多边形丢失精度
+		xi, yi := lr[i].X-lr[0].X, lr[i].Y-lr[0].Y
+		xj, yj := lr[j].X-lr[0].X, lr[j].Y-lr[0].Y
+		centroidX += (xi + xj) * (xi*yj - xj*yi)
+		centroidY += (yi + yj) * (xi*yj - xj*yi)
+		signArea += xi*yj - xj*yi
 	}
 	if signArea == 0 {
 		return Point{math.NaN(), math.NaN()}
 	}
 	centroidX *= 1 / (6 * signArea / 2)
 	centroidY *= 1 / (6 * signArea / 2)
+	centroidX += lr[0].X
+	centroidY += lr[0].Y
 	if len(poly) > 1 {
 		area := math.Abs(signArea / 2)
 		centroidX, centroidY = centroidX*area, centroidY*area
-- 
2.43.0


From bd2ecabf68b75f68d7715fc001905672a435103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:18 +0000
Subject: [PATCH 48/61] fix: ConvexHull of points that occur more than once

A repeated point next to the lowest one stopped the removal of points inside
the hull: (0,1) (2,0) (1,0) (1,0) (0,0) gave a ring that is not convex.
---
 convexhull.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/convexhull.go b/convexhull.go
index dafddcc..1ff32f2 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -58,10 +58,19 @@ func ConvexHull(pts ...Point) Polygon {
 		return hullPts{pivot, rest[i], rest[j]}.Less(1, 2)
 	})
 	stack = append(stack, points[0])
-	stack = append(stack, points[1])
-	i := 2
+	i := 1
 	for i < len(points) {
 		pi := points[i]
+		//重复的点
+		if pi == stack[len(stack)-1] {
+			i++
+			continue
+		}
+		if len(stack) < 2 {
+			stack = append(stack, pi)
+			i++
+			continue
+		}
 
 		p1 := stack[len(stack)-2]
 		p2 := stack[len(stack)-1]
-- 
2.43.0


From 82a66fd16a3cf61f48dd4df31ee77e52783a13b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 49/61] fix: latitude and longitude of UTM coordinates

The inverse series used the wrong constant for its eccentricity term and added
the sixth-order latitude term outside its factor, which moved points up to 0.8 m
away from where FromLatLon had them.
---
 utm.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utm.go b/utm.go
index 5f1e037..20df9cb 100755
--- a/utm.go
+++ b/utm.go
@@ -142,7 +142,7 @@ func ToLatLon(easting, northing float64, zoneNumber int, zoneLetter string, nort
 	n := r / epSinSqrt
 	rad := (1 - e) / epSin
 
-	c := fe * pCos * pCos
+	c := eP2 * pCos * pCos
 	c2 := c * c
 
 	d := x / (n * k0)
@@ -154,8 +154,8 @@ func ToLatLon(easting, northing float64, zoneNumber int, zoneLetter string, nort
 
 	latitude = pRad - (pTan/rad)*
 		(d2/2-
-			d4/24*(5+3*pTan2+10*c-4*c2-9*eP2)) +
-		d6/720*(61+90*pTan2+298*c+45*pTan4-252*eP2-3*c2)
+			d4/24*(5+3*pTan2+10*c-4*c2-9*eP2)+
+			d6/720*(61+90*pTan2+298*c+45*pTan4-252*eP2-3*c2))
 
 	longitude = (d -
 		d3/6*(1+2*pTan2+c) +
-- 
2.43.0


From 283886c15b300a71d29a8a26eb3b73ae98aee98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:10 +0000
Subject: [PATCH 50/61] fix: UTM zones at the limits of the Norway and Svalbard
 exceptions

A zone starts at its western limit and ends before its eastern one, band V ends
before latitude 64; the exceptions included both limits, so that e.g. longitude
12 was in zone 32 instead of 33 between latitudes 56 and 64.
---
 utm.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utm.go b/utm.go
index 20df9cb..39dfc1a 100755
--- a/utm.go
+++ b/utm.go
@@ -249,18 +249,18 @@ func latitudeToZoneLetter(latitude float64) string {
 }
 
 func latLonToZoneNumber(latitude float64, longitude float64) int {
-	if 56 <= latitude && latitude <= 64 && 3 <= longitude && longitude <= 12 {
+	if 56 <= latitude && latitude < 64 && 3 <= longitude && longitude < 12 {
 		return 32
 	}
 
 	if 72 <= latitude && latitude <= 84 && longitude >= 0 {
-		if longitude <= 9 {
+		if longitude < 9 {
 			return 31
-		} else if longitude <= 21 {
+		} else if longitude < 21 {
 			return 33
-		} else if longitude <= 33 {
+		} else if longitude < 33 {
 			return 35
-		} else if longitude <= 42 {
+		} else if longitude < 42 {
 			return 37
 		}
 	}
-- 
2.43.0


From 2d8ab9793fb068af02511701121e33e924446e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 51/61] fix: wkt.Decode reads spaces next to any parenthesis

Spaces between the parentheses of nested parts, as in
MULTIPOLYGON( ( (0 0, ...) ) ), were reported as a format error.
---
 wkt/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wkt/decode.go b/wkt/decode.go
index 6c34538..4390aae 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -229,7 +229,7 @@ func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
 
 func Decode(wkt string) (geo.Geometry, error) {
 	wkt = strings.Trim(wkt, " ")
-	wkt = strings.Replace(wkt, ", ", ",", -1)
+	wkt = regexp.MustCompile(` *([(),]) *`).ReplaceAllString(wkt, "$1")
 	re := regexp.MustCompile(`([A-Z]+)\s*[(]\s*(\(*.+\)*)\s*[)]`)
 	match := re.FindStringSubmatch(wkt)
 	if len(match) != 3 || strings.Count(wkt, "(") != strings.Count(wkt, ")") {
-- 
2.43.0


From 0c85e6580b847b7bb954f8856526ec4d61e77707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:47 +0000
Subject: [PATCH 52/61] fix: DouglasPeuckerSimplify ends for negative
 thresholds

With every inner point on the segment, maxDist = 0 is still above a negative threshold, and the
segment was divided at its own start again and again until memory ran out.
---
 simplify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplify.go b/simplify.go
index f670955..00c3201 100644
--- a/simplify.go
+++ b/simplify.go
@@ -36,7 +36,7 @@ func dpWorker(line LineString, threshold float64, srid SRID) []int {
 				maxIndex = i
 			}
 		}
-		if maxDist > threshold {
+		if maxDist > threshold && maxIndex > start {
 			stack[len(stack)-1] = maxIndex
 			stack = append(stack, maxIndex, end)
 		} else {
-- 
2.43.0


From 13ef955f08f0d1611bc69f5760398522fe9a3ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:47 +0000
Subject: [PATCH 53/61] fix: NearestNeighbors asked for more neighbours than
 there are objects

It allocated room for k results whatever the size of the tree; a large k, as used to get all
objects by distance, ended the process for lack of memory.
---
 rtree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtree.go b/rtree.go
index 8cdd607..32754eb 100644
--- a/rtree.go
+++ b/rtree.go
@@ -791,6 +791,9 @@ func (p *Point) minDist(r *Box) float64 {
 
 // NearestNeighbors gets the closest Spatials to the Point.
 func (tree *Rtree) NearestNeighbors(k int, p Point) []Spatial {
+	if k > tree.size {
+		k = tree.size
+	}
 	if k <= 0 {
 		return []Spatial{}
 	}
-- 
2.43.0


From 16ba379e99431cdc37946bb09370ab8d2453a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:47 +0000
Subject: [PATCH 54/61] fix: S2RegionCoverer of a polygon without points
 returns nothing

---
 googleS2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/googleS2.go b/googleS2.go
index a481308..38908cd 100644
--- a/googleS2.go
+++ b/googleS2.go
@@ -49,6 +49,9 @@ func S2GetAllNeighbors(cellID uint64, srid SRID) []uint64 {
 }
 
 func S2RegionCoverer(poly Polygon, level int, srid SRID) []uint64 {
+	if len(poly.GetExteriorPoints()) == 0 {
+		return nil
+	}
 	if poly.IsCCW() {
 		pois := append([]Point{}, poly.GetExteriorRing().GetPointSet()...)
 		for i, j := 0, len(pois)-1; i < j; i, j = i+1, j-1 {
-- 
2.43.0


From b830b2ba95879c04608af43c65211b34bfc3ff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:33 +0000
Subject: [PATCH 55/61] fix: SetBoundingBox of a decoded feature

UnmarshalFeature fills GeometryJson only; SetBoundingBox dereferenced the nil box of the missing
Geometry.
---
 geojson/feature.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geojson/feature.go b/geojson/feature.go
index b8be919..022995c 100644
--- a/geojson/feature.go
+++ b/geojson/feature.go
@@ -30,7 +30,14 @@ func NewFeature(geometry geo.Geometry) *Feature {
 }
 
 func (f *Feature) SetBoundingBox() {
-	box := geo.BoundingBox(f.Geometry)
+	geometry := f.Geometry
+	if geometry == nil {
+		geometry, _ = UnmarshalGeo(f.GeometryJson)
+	}
+	if geometry == nil {
+		return
+	}
+	box := geo.BoundingBox(geometry)
 	f.BoundingBox = []float64{box.MinX, box.MinY, box.MaxX, box.MaxY}
 }
 
-- 
2.43.0


From 6467e282112bc8655fa93dae1e2d47815d267ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:24 +0000
Subject: [PATCH 56/61] fix: inserting into an Rtree whose areas overflow

With coordinates beyond 1e154 the enlargement is Inf - Inf, no entry was chosen and chooseNode
dereferenced nil.
---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 32754eb..4677a1b 100644
--- a/rtree.go
+++ b/rtree.go
@@ -321,7 +321,7 @@ func (tree *Rtree) chooseNode(n *node, e entry, level int) *node {
 	for _, en := range n.entries {
 		bb := en.bb.Union(e.bb)
 		d := bb.Size() - en.bb.Size()
-		if d < diff || (d == diff && en.bb.Size() < chosen.bb.Size()) {
+		if chosen.child == nil || d < diff || (d == diff && en.bb.Size() < chosen.bb.Size()) {
 			diff = d
 			chosen = en
 		}
-- 
2.43.0


From 2fda9583ef62bc0c803830ddd90ae56d4767fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 57/61] fix: CacQuadrantAngle of points beyond 2e9

The reference point 1e-7 to the right of the first point was rounded back onto it, and the
direction between two different points was reported as an error.
---
 calcaulation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calcaulation.go b/calcaulation.go
index 380920a..d886e9f 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -30,7 +30,7 @@ func CacAngle(point1, centerPoint, point2 Point) (float64, error) {
 }
 
 func CacQuadrantAngle(point1, point2 Point) (float64, error) {
-	angle, err := CacAngle(Point{point1.X + 0.0000001, point1.Y}, point1, point2)
+	angle, err := CacAngle(Point{point1.X + math.Max(1, math.Abs(point1.X)), point1.Y}, point1, point2)
 	return angle, err
 }
 
-- 
2.43.0


From ab753960871cb2a1db476a74537c3b7637fffb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 58/61] fix: distances beyond 2^31

The least distance started at INF = 2^31, so a farther line or polygon was reported at that
distance, with point (0, 0) and segment 0 as the nearest.
---
 calcaulation.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index d886e9f..6e45014 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -247,7 +247,7 @@ func PointPolygonDistance(p Point, poly Polygon, srid SRID) float64 {
 	if IsPointInPolygon(p, poly) == RELA_CONTAIN || IsPointInPolygon(p, poly) == RELA_TOUCH {
 		return 0
 	}
-	var distance = INF
+	var distance = math.Inf(1)
 	for _, lr := range poly {
 		ptCount := lr.GetPointCount() - 1
 		for i := 0; i < ptCount; i++ {
@@ -263,13 +263,16 @@ func PointPolygonDistance(p Point, poly Polygon, srid SRID) float64 {
 			}
 		}
 	}
+	if math.IsInf(distance, 1) {
+		return INF
+	}
 	return distance
 }
 
 // 由点到线上的最近点
 // 返回参数：最近点，点序，距离
 func PointHitLineString(p Point, line LineString, srid SRID) (Point, int, float64) {
-	distance, nearestIndex, nearestPt := INF, 0, Point{0, 0}
+	distance, nearestIndex, nearestPt := math.Inf(1), 0, Point{0, 0}
 	ptCount := line.GetPointCount()
 	for i := 0; i < ptCount-1; i++ {
 		var previousPoint Point = line[i]
@@ -283,6 +286,9 @@ func PointHitLineString(p Point, line LineString, srid SRID) (Point, int, float6
 			nearestPt = tempPt
 		}
 	}
+	if math.IsInf(distance, 1) {
+		distance = INF
+	}
 	return nearestPt, nearestIndex, distance
 }
 
@@ -322,26 +328,26 @@ func HausdorffDistance(line1, line2 LineString, srid SRID) float64 {
 	}
 	maxDis := 0.0
 	for _, pt1 := range line1 {
-		minDis := INF
+		minDis := math.Inf(1)
 		for _, pt2 := range line2 {
 			d := PointDistance(pt1, pt2, srid)
 			if minDis > d {
 				minDis = d
 			}
 		}
-		if maxDis < minDis && minDis != INF {
+		if maxDis < minDis && !math.IsInf(minDis, 1) {
 			maxDis = minDis
 		}
 	}
 	for _, pt1 := range line2 {
-		minDis := INF
+		minDis := math.Inf(1)
 		for _, pt2 := range line1 {
 			d := PointDistance(pt1, pt2, srid)
 			if minDis > d {
 				minDis = d
 			}
 		}
-		if maxDis < minDis && minDis != INF {
+		if maxDis < minDis && !math.IsInf(minDis, 1) {
 			maxDis = minDis
 		}
 	}
-- 
2.43.0


From 26988ea894eb63aab9fa220113d50fbf80781848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 59/61] fix: GetAllBoundingBoxes returns the tree's own boxes

Editing one of them changed the box of a node, so that searches missed
objects.
---
 rtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 4677a1b..2d59e8f 100644
--- a/rtree.go
+++ b/rtree.go
@@ -440,7 +440,8 @@ func (n *node) getAllBoundingBoxes() []*Box {
 		if e.child == nil {
 			return Boxs
 		}
-		BoxsInter := append(e.child.getAllBoundingBoxes(), e.bb)
+		bb := *e.bb // a copy: the caller may edit it
+		BoxsInter := append(e.child.getAllBoundingBoxes(), &bb)
 		Boxs = append(Boxs, BoxsInter...)
 	}
 	return Boxs
-- 
2.43.0


From dde2bc95baa607d81d00f709f09b09138f9e4fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 60/61] fix: BoxUnion of one box returns the argument itself

Two and more boxes give a new one.
---
 box.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/box.go b/box.go
index b30434a..90b1607 100644
--- a/box.go
+++ b/box.go
@@ -156,6 +156,10 @@ func BoxUnion(boxs ...*Box) *Box {
 	if len(boxs) == 0 {
 		return &Box{}
 	}
+	if len(boxs) == 1 && boxs[0] != nil {
+		box := *boxs[0] // not the argument itself
+		return &box
+	}
 	box := boxs[0]
 	for _, b1 := range boxs[1:] {
 		box = box.Union(b1)
-- 
2.43.0


From 670439b760e447cc7cbf96f8a5a5befa9a0df434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:04 +0000
Subject: [PATCH 61/61] fix: CacConvex tells the side of a turn too slight for
 an angle

---
 calcaulation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index 6e45014..aa16a24 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -102,14 +102,14 @@ func pointsCenteriod(points ...Point) Point {
 //计算顶点的凹凸性 先计算待处理点与相邻点的两个向量，再计算两向量的叉乘，根据求得结果的正负可以判断凹凸性。 0代表凸顶点，1代表凹顶点，2代表平角
 func CacConvex(p1, p2, p3 Point) (int8, error) {
 	//直接采用算sin theata 来判断凹凸性
-	theata, err := CacAngle(p1, p2, p3)
-	if err != nil {
+	if _, err := CacAngle(p1, p2, p3); err != nil {
 		return -1, err
 	}
 	if Area2(p1, p2, p3) == 0 {
 		return 2, nil
 	}
-	res := math.Sin(theata)
+	//叉乘与sin theata同号，但不受角度精度的限制
+	res := ConvertPointToVector(p1, p2).Cross(*ConvertPointToVector(p3, p2))
 	if res < 0 {
 		return 0, nil
 	} else if res > 0 {
-- 
2.43.0

