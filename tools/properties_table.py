TESTS = "the existing tests print results and assert almost none; "
T_BFS = "explicit-state model checking: breadth-first search over the states of the real R-tree, compared with a multiset model after every operation"
T_ENUM = "bounded exhaustive model checking: enumeration of every case of a finite input space on the real code against an independent reference"
N_BFS = "exhaustive over all operation sequences of the closed state spaces (fixpoint reached unless the evidence says otherwise) plus exhaustive families of larger histories; nothing is claimed beyond those sizes"
N_ENUM = "exhaustive over the stated finite spaces only; the evidence lists every space and its size"

# ------------------------------------------------------------------ R-tree index
RT = ["rtree.go", "box.go"]
prop("R01", "R-tree box search returns exactly the stored objects whose box meets it",
 "After any sequence of insertions, deletions, upserts and bulk construction, SearchIntersect returns every stored object whose bounding box has a point in common with the query box (borders count), each as often as it is stored, and no other object; SearchIntersectWithCond returns exactly those of them the condition accepts. Returned objects carry the id, properties and geometry they were stored with; a nil box finds nothing.",
 ["histories", "inputs"], "every operation sequence over a small set of objects (all geometry kinds, coincident, collinear, nested boxes), every bulk-loaded size, several branching limits; query boxes that start, end, touch and miss every coordinate",
 TESTS + "a tree's shape depends on its whole history (splits, reinsertion, root growth and collapse); a test sees one history.",
 RT, [("insertion with split", "rtree.go insert/chooseNode/split/adjustTree"), ("bulk loading", "rtree.go bulkLoad/omt"), ("search", "rtree.go searchIntersectWithCond"), ("box test", "box.go Intersect")],
 ["Rtree.SearchIntersect", "Rtree.SearchIntersectWithCond"], technique=T_BFS, note=N_BFS)
prop("R02", "R-tree deletion removes exactly one matching object and nothing else",
 "In every state reachable by insertions, bulk construction and deletions, Delete(obj) removes one stored object that equals obj (id, properties and geometry, also when the properties cannot be compared with ==) and returns true, or returns false and changes nothing when there is none; DeleteWithComparator does the same with the caller's comparator, called with a stored object and the given one, for objects with the geometry given. Size is always the number of stored objects, and deletion never panics, hangs or loses another object, down to the empty tree and up again.",
 ["histories", "inputs"], "every operation sequence over a small set of objects with several branching limits, including deletion to the empty tree and insertion afterwards",
 TESTS + "condensing the tree, reinsertion of orphans and root collapse happen only in particular histories.",
 RT, [("deletion", "rtree.go Delete/DeleteWithComparator/findLeaf"), ("condensing", "rtree.go condenseTree")],
 ["Rtree.Delete", "Rtree.DeleteWithComparator", "Rtree.Size"], technique=T_BFS, note=N_BFS)
prop("R03", "R-tree operations by id act on exactly the objects with that id",
 "In every reachable state SearchBySpatialID(id) returns exactly the stored objects with that id, DeleteBySpatialID(id) removes all of them and no other object and returns whether there was one, and UpsertBySpatialID leaves exactly the given object stored under its id (its objects processed one after the other) and every other id unchanged.",
 ["histories"], "every sequence of insertions, id deletions and upserts over objects that share ids, near and far from each other, several branching limits",
 TESTS + "ids shared by several objects, spread over several leaves, need a history.",
 RT, [("operations by id", "rtree.go SearchBySpatialID/DeleteBySpatialID/UpsertBySpatialID")],
 ["Rtree.SearchBySpatialID", "Rtree.DeleteBySpatialID", "Rtree.UpsertBySpatialID", "Rtree.Size"], technique=T_BFS, note=N_BFS)
prop("R04", "NearestNeighbors returns the k stored objects nearest to the point, in order",
 "In every reachable state NearestNeighbors(k, p) returns min(k, Size) stored objects, each at most as often as it is stored, in ascending order of the planar distance from p to their bounding boxes, and no object left out is nearer than one returned; for k of zero or less it returns nothing.",
 ["histories", "inputs"], "every operation sequence over a small set of objects, several branching limits, query points inside, on, between and beyond all boxes, every k up to Size + 7",
 TESTS + "the pruning of branches depends on the tree's shape, on k and on ties.",
 RT, [("branch and bound", "rtree.go nearestNeighbors/insertNearest/pruneEntriesMinDist/sortPreallocEntries"), ("box distance", "rtree.go minDist")],
 ["Rtree.NearestNeighbors"], technique=T_BFS, note=N_BFS)
prop("R05", "R-tree constructors store exactly the given objects; random ids are distinct",
 "NewTree, NewTreeWith, NewMinMaxTree and NewRandomIDTree build, for any number of objects (zero included), a tree that stores exactly the given objects and answers searches, id lookups and nearest-neighbour queries and takes updates correctly from then on. Ids made by NewRandomIDTree and InsertWithRandomId are not empty and differ from each other within the tree, however fast the calls follow each other.",
 ["inputs", "configurations", "schedules"], "every number of objects up to a bound x constructors x branching limits x layouts; every insert/delete sequence up to a depth while the clock stands still",
 TESTS + "bulk loading takes different paths by size and branching; equal clock readings do not occur reliably in a test run.",
 RT, [("constructors", "rtree.go NewTree/NewTreeWith/NewMinMaxTree/NewRandomIDTree"), ("bulk loading", "rtree.go bulkLoad/omt/walkPartitions"), ("random ids", "rtree.go InsertWithRandomId")],
 ["NewTree", "NewTreeWith", "NewMinMaxTree", "NewRandomIDTree", "Rtree.InsertWithRandomId"],
 technique="bounded exhaustive model checking: every construction size and configuration on the real code, with a frozen virtual clock for the generated ids, against a multiset model", note=N_ENUM)
prop("R06", "R-tree depth and node boxes describe the stored objects",
 "In every reachable state every box of GetAllBoundingBoxes is the tight envelope of stored objects, there are none exactly when Depth is 1, every stored object lies in at least Depth-1 of them, and MaxChildren to the power of Depth is at least Size; a tree emptied by deletions has Depth 1 and no boxes.",
 ["histories"], "every operation sequence over a small set of objects, every bulk-loaded size, several branching limits",
 TESTS + "stale or loose boxes only arise after particular deletions and splits, and stay invisible until a later query.",
 RT, [("box maintenance", "rtree.go adjustTree/condenseTree/computeBoundingBox/assign"), ("root collapse", "rtree.go DeleteWithComparator")],
 ["Rtree.Depth", "Rtree.GetAllBoundingBoxes"], technique=T_BFS, note=N_BFS)

# ------------------------------------------------------------------ planar relations
prop("P01", "Point-in-polygon tells inside, boundary and outside apart",
 "IsPointInPolygon(p, polygon) is CONTAIN exactly when p is strictly inside the polygon, TOUCH exactly when p lies on the boundary (of the outer ring or of a hole) and DISJOINT otherwise (strictly inside a hole included); it does not depend on the direction or the starting vertex of the rings. Holds for simple polygons with holes inside the shell, for points on the boundary or farther than 1e-5 (and farther than rounding) from it.",
 ["inputs"], "every simple polygon with up to a bounded number of vertices on a grid, a catalogue of larger shapes with holes and families of large rings, under rotations, reflections, scalings and translations; every grid and half-grid point",
 "the one asserting test has a handful of points; vertices, collinear edges and rays through vertices make the cases.",
 ["contain.go", "relation.go"], [("ray casting", "contain.go IsPointInPolygon")], ["IsPointInPolygon"], technique=T_ENUM, note=N_ENUM)
prop("P02", "Segment and point-line relations are exact",
 "For segments with distinct end points, SegmentRelation is INTERSECT exactly when they cross at a point interior to both, TOUCH when they have any other point in common (shared end, T-junction, collinear overlap) and DISJOINT when they have none, whatever the order of the segments and of their ends. IsPointOnSegment and IsPointOnLine tell exactly whether the point lies on the segment or the (not closed) polyline, and LineRelation is DISJOINT exactly when two polylines have no common point.",
 ["inputs"], "every pair of segments and every point on a grid, all transforms; all short polylines on a grid",
 TESTS + "collinear, T-shaped and end-touching positions are measure-zero cases a sample misses.",
 ["relation.go"], [("segment relation", "relation.go SegmentRelation"), ("point on line", "relation.go IsPointOnSegment/IsPointOnLine"), ("polyline relation", "relation.go LineRelation")],
 ["SegmentRelation", "IsPointOnSegment", "IsPointOnLine", "LineRelation"], technique=T_ENUM, note=N_ENUM)
prop("P03", "Relations of segments, lines and polygons with a polygon are right",
 "SegPolyRelation, LinePolyRelation, LinearPolyRelation and PolyRelation are DISJOINT exactly when the two geometries have no point in common, CONTAIN exactly when the first lies in the interior of the second without touching its boundary (PolyRelation: for a second polygon without holes), INTERSECT when an edge of the first crosses a boundary edge at a point interior to both or joins a point strictly inside to one strictly outside, and never UNKNOWN. A segment from outside to outside that meets the boundary only without crossing an edge is TOUCH, one inside with boundary contact is COVER. This holds for simple polygons with exactly representable coordinates and holes inside the shell, in any ring direction and from any starting vertex.",
 ["inputs"], "every segment on a grid against every catalogue polygon and every small grid polygon; every pair of polygons of the catalogue at every grid offset; all transforms",
 TESTS + "passing through vertices, running along edges, enclosing and hole cases are not sampled.",
 ["relation.go"], [("relations", "relation.go SegPolyRelation/LinePolyRelation/LinearPolyRelation/PolyRelation")],
 ["SegPolyRelation", "LinePolyRelation", "LinearPolyRelation", "PolyRelation"], technique=T_ENUM, note=N_ENUM)
prop("P04", "SelfIntersect and Verify accept exactly the valid polygons",
 "SelfIntersect of a polygon is true exactly when two edges of its outer ring cross at a point interior to both, the closing edge included, whatever the ring's direction and starting vertex. Verify accepts a polygon exactly when it has a ring of at least three points, every longitude (x) lies in [-180,180] and every latitude (y) in [-90,90], its area is not practically zero, and it does not intersect itself in that sense.",
 ["inputs"], "every closed ring with up to a bounded number of vertices on a grid; every placement of one vertex at and beyond the limits of longitude and latitude",
 TESTS + "the crossing pair may be any two edges, the closing edge included.",
 ["polygon.go", "linearRing.go"], [("self intersection", "polygon.go SelfIntersect"), ("validation", "polygon.go Verify")],
 ["Polygon.SelfIntersect", "Polygon.Verify"], technique=T_ENUM, note=N_ENUM)

# ------------------------------------------------------------------ boxes
G_TESTS = "the existing tests sample one or two ordinary inputs and mostly print them; "
prop("B01", "BoundingBox is the exact envelope of every kind of geometry",
 "For every geometry of the 12 types and collections of them with at least one point, BoundingBox is the smallest axis-parallel box that contains all its points: each side is the least or greatest coordinate of a point, exactly, whatever the magnitude or sign of the coordinates and wherever in the sequence, part or ring the extreme points occur. The geometry is not changed.",
 ["inputs"], "every sequence of points over coordinates of all signs and magnitudes, as every geometry type and every split into parts; the extreme points at every position of a long sequence",
 G_TESTS + "an extreme in a later part, at a particular position, or beyond an initial value of the scan needs its own input.",
 ["box.go"], [("envelope per type", "box.go BoundingBox and its helpers")], ["BoundingBox"], technique=T_ENUM, note=N_ENUM)
prop("B02", "Boxes obey interval arithmetic: Intersect, Contain, Union, Size, BoxToGeo",
 "For boxes with Min <= Max: Intersect is true exactly when the boxes share a point (borders count; a nil box intersects nothing), Contain exactly when the second lies in the first, IsPointInBox exactly when the point lies in the closed box, Union and BoxUnion give the least box around all arguments, Size the area. BoxToGeo gives a geometry of the same extent (point, line or closed rectangle), and no operation changes its arguments.",
 ["inputs"], "every pair and triple of boxes over a set of coordinates (degenerate, touching, nested, crossing, disjoint), every point around them",
 G_TESTS + "touching, nested and crossing positions are combinations a sample misses.",
 ["box.go", "contain.go"], [("box operations", "box.go Intersect/Contain/Union/BoxUnion/Size/BoxToGeo"), ("point in box", "contain.go IsPointInBox")],
 ["Box.Intersect", "Box.Contain", "Box.Union", "BoxUnion", "Box.Size", "BoxToGeo", "IsPointInBox", "NewRectBox", "NewBox"], technique=T_ENUM, note=N_ENUM)

# ------------------------------------------------------------------ measures
prop("A01", "GetArea is the planar area, holes subtracted, for any ring direction",
 "For polygons with simple closed rings and disjoint holes inside the shell, GetArea is the area of the shell minus that of the holes (to a millionth), never negative, whatever the direction and starting vertex of each ring and however small the polygon or far it is from the origin; for a MultiPolygon it is the sum over its polygons, for points and lines 0. IsCCW is true exactly when the shell runs counter-clockwise, and Area2 is twice the signed area of the triangle.",
 ["inputs"], "every simple ring on a grid, every small hole, a catalogue of shapes with holes and families of large rings, in every direction and start, at many scales and offsets",
 G_TESTS + "direction, starting vertex, hole and magnitude combine.",
 ["calcaulation.go", "polygon.go", "multipolygon.go"], [("shoelace sums", "calcaulation.go GetArea/MultiPolyArea/Area2"), ("orientation", "polygon.go IsCCW")], ["GetArea", "MultiPolyArea", "Polygon.IsCCW", "Area2"], technique=T_ENUM, note=N_ENUM)
prop("A02", "Centroid is the centre of gravity",
 "For polygons with simple closed rings and disjoint holes inside the shell, Centroid is the centre of gravity of the area (holes taken out), independent of ring direction and starting vertex and moving with the polygon; LinearCentroid and the centroid of a line are that of the ring they describe when closed. The centroid of points is their mean, of one point itself.",
 ["inputs"], "the polygon spaces of A01; every sequence of points on a grid",
 G_TESTS + "direction, start, offset and hole combine.",
 ["calcaulation.go"], [("centroid", "calcaulation.go Centroid/LinearCentroid")], ["Centroid", "LinearCentroid"], technique=T_ENUM, note=N_ENUM)
prop("H01", "ConvexHull is the convex hull of the points",
 "For any points that are not all collinear, in any order and however often they occur, ConvexHull gives one closed counter-clockwise convex ring that has only given points as vertices, every extreme point among them, and contains all points; fewer than three points have no hull. The caller's points are neither changed nor reordered.",
 ["inputs"], "every sequence (order and repetition included) of up to 6 or 7 grid points; families of point sets of every size up to a bound in many orders; ten scalings and offsets",
 G_TESTS + "sorting takes different paths by size (above 12 points) and input order; ties and duplicates are measure-zero cases.",
 ["convexhull.go"], [("Graham scan", "convexhull.go ConvexHull")], ["ConvexHull"], technique=T_ENUM, note=N_ENUM)
prop("H02", "Mbr is the smallest rectangle around the geometry",
 "For geometries of points that are not all collinear, Mbr is a closed rectangle that contains every point of the geometry and has the least area among rectangles in any direction, to the 1e-4 resolution of the library's rotation; the geometry is not changed.",
 ["inputs"], "every sequence of grid points as MultiPoint, LineString, MultiLineString, Polygon and MultiPolygon; families of point sets; a catalogue of shapes; four scales and offsets",
 G_TESTS + "which edge gives the least rectangle depends on the shape.",
 ["mbr.go", "convexhull.go"], [("rectangle by hull edges", "mbr.go Mbr"), ("rotation", "mbr.go RotateCW")], ["Mbr"], technique=T_ENUM, note=N_ENUM)
prop("H03", "RotateCW and RotateCCW turn a geometry about a centre",
 "Rotating a point or polygon by any angle about any centre gives a geometry of the same type with the same rings and number of vertices in which every vertex is turned clockwise (RotateCW) or counter-clockwise (RotateCCW) about the centre, to 1e-4; rings stay closed and the argument is not changed.",
 ["inputs"], "every point and centre on a grid and every catalogue polygon with holes x angles of more than two full turns in both directions x scales and offsets",
 G_TESTS + "only a few angles and no polygons with holes are sampled.",
 ["mbr.go"], [("rotation", "mbr.go RotateCW/RotateCCW")], ["RotateCW", "RotateCCW"], technique=T_ENUM, note=N_ENUM)
prop("D01", "Distances from a point are the least distances, with the right foot point",
 "PointToSegmentDistance gives the nearest point of the segment (an end of it when the foot of the perpendicular lies beyond, the end itself for a segment of length zero) and the distance to it; PointToLineDistance gives the foot on the infinite line, its distance and position. PointHitLineString gives a nearest point of the polyline, its segment and distance, and PointPolygonDistance is 0 inside or on the polygon and otherwise the least distance to its boundary, holes included. Distances are planar, or great-circle distances to the (planar) foot point for WGS84; Length is the sum of the segment lengths.",
 ["inputs"], "every point and segment on a grid, every point and polyline on a grid, every catalogue polygon and small ring x points, all in planar and WGS84 reference systems at several scales",
 G_TESTS + "perpendicular feet beyond the ends, zero-length segments, equal distances and holes are special positions.",
 ["calcaulation.go", "lonlat.go", "lineString.go", "point.go", "pointZ.go"], [("point to segment", "calcaulation.go PointToSegmentDistance/PointToLineDistance"), ("point to polyline and polygon", "calcaulation.go PointHitLineString/PointPolygonDistance")],
 ["PointToSegmentDistance", "PointToLineDistance", "PointHitLineString", "PointPolygonDistance", "PointDistance", "EuclideanDis", "EuclideanDistance", "EuclideanDisZ", "Point.Distance", "LineString.Length"], technique=T_ENUM, note=N_ENUM)
prop("D02", "HausdorffDistance is the Hausdorff distance of the vertex sets",
 "For lines of length greater than zero, HausdorffDistance is the greater, over both directions, of the largest distance from a vertex of one line to the nearest vertex of the other; it is symmetric, and planar or great-circle according to the reference system.",
 ["inputs"], "every pair of short polylines on a grid; long lines with a deviating vertex at every position and the other line cut at every length",
 G_TESTS + "a deviating vertex must be found in either line and at any position.",
 ["calcaulation.go"], [("Hausdorff", "calcaulation.go HausdorffDistance")], ["HausdorffDistance"], technique=T_ENUM, note=N_ENUM)
prop("D03", "CoordDistance and CoordGreateCircle are great-circle distances",
 "For any two points of longitude -180..180 and latitude -90..90, poles and date line included, CoordDistance is the great-circle distance on the sphere of radius 6371 km, to 1e-9 (1 m next to the antipode), symmetric and never NaN; CoordGreateCircle agrees with it to half a metre. PointDistance with SRID 4326 is CoordDistance.",
 ["inputs"], "every pair of points of a 15 degree lon-lat grid with poles, date line and odd points; offsets from 1e-10 to 10 degrees from every point and from its antipode",
 G_TESTS + "equal, antipodal, polar and date-line positions make acos and asin arguments leave their domain by rounding.",
 ["lonlat.go", "calcaulation.go"], [("haversine", "lonlat.go CoordDistance"), ("great circle", "lonlat.go CoordGreateCircle")], ["CoordDistance", "CoordGreateCircle", "PointDistance"], technique=T_ENUM, note=N_ENUM)
prop("D04", "DestinationPoint and GetAzimuth are consistent spherical navigation",
 "DestinationPoint(lat, lon, d, b) is the point at great-circle distance d in initial bearing b (to 1 m; 5 m within a degree of a pole), with longitude in [-180,180] and latitude in [-90,90]. GetAzimuth(p, q, 4326) is the initial bearing from p to q in [0,360), so that walking to DestinationPoint and measuring back returns distance and bearing; for planar reference systems GetAzimuth is 0.",
 ["inputs"], "every pair of points of the 15 degree lon-lat grid; every start x ten distances up to half the circumference x 31 bearings",
 G_TESTS + "crossing the date line and the poles needs particular starts, bearings and distances.",
 ["lonlat.go"], [("destination", "lonlat.go DestinationPoint"), ("azimuth", "lonlat.go GetAzimuth")], ["DestinationPoint", "GetAzimuth"], technique=T_ENUM, note=N_ENUM)
prop("S01", "DouglasPeuckerSimplify keeps the ends and every point beyond the threshold",
 "The result of DouglasPeuckerSimplify is a subsequence of the line with both ends that the recursive definition produces: between two kept points everything lies within the threshold of their segment, and a point is kept only as the farthest one, farther than the threshold, of the segment it divides. Lines of fewer than three points stay as they are, and the caller's line is not changed.",
 ["inputs"], "every line of up to 5 or 6 points on a grid, every profile over a base, families of long lines x seven thresholds (0 and exact ties included) x four reference systems",
 G_TESTS + "which points stay depends on the recursion over the whole line; equality with the threshold is measure-zero.",
 ["simplify.go"], [("recursion", "simplify.go DouglasPeuckerSimplify")], ["DouglasPeuckerSimplify"], technique=T_ENUM, note=N_ENUM)
prop("V01", "Angles, turns and vectors follow the plane's geometry",
 "CacAngle is the angle at the centre from the first to the second point, counter-clockwise, in [0,2pi]; CacConvex tells left turn, right turn and straight on exactly; CacQuadrantAngle is the direction from one point to another in [0,2pi]; coincident points are errors. Vector2 addition, subtraction, dot and cross product, length, scaling, normalisation and cloning compute the vector quantities, and operations that return a value leave their operands alone.",
 ["inputs"], "every triple and pair of grid points at several scales and offsets; every pair of grid vectors at several scales",
 G_TESTS + "axis directions, straight angles and quadrant borders are measure-zero.",
 ["angle.go", "vector.go"], [("angles", "angle.go CacAngle/CacConvex/CacQuadrantAngle"), ("vectors", "vector.go")], ["CacAngle", "CacConvex", "CacQuadrantAngle", "Vector2"], technique=T_ENUM, note=N_ENUM)
prop("F01", "Point.Buffer is a closed regular 24-gon around the point",
 "For any centre and width >= 0, Buffer(width) is one closed counter-clockwise ring of 24 corners, 15 degrees apart and all at the distance width from the centre, wherever the centre is and however small or large the width; for a negative width it is nil.",
 ["inputs"], "63 centres (limits of lon-lat and projected ranges) x widths from 1e-4 to 1e6, and negative ones",
 G_TESTS + "the corner count and closure come from a floating-point angle loop.",
 ["buffer.go", "point.go"], [("buffer", "buffer.go Buffer")], ["Point.Buffer"], technique=T_ENUM, note=N_ENUM)

# ------------------------------------------------------------------ containers
prop("L01", "Line editing behaves like list editing, with errors for bad positions",
 "After any sequence of Append, SetPoint, InsertPoint, DelPoint and Reverse a LineString (and its 3D counterpart) holds exactly the points a list would hold: a position below zero or beyond the end is an error that changes nothing, SetPoint and InsertPoint at the end append one point. GetPoint, GetFirstPoint, GetEndPoint, GetPointCount, GetPointSet, Equal and Verify describe that list; multi-points, polygons and multi-polygons gather what is appended or set, in order.",
 ["histories"], "every sequence of editing operations over three points, all positions from -2 to beyond the end, up to a line length (states distinguished by contents and spare capacity); every sequence of container operations up to a depth",
 TESTS + "in-place shifting depends on position, length and the slice's spare capacity, that is on the history.",
 ["lineString.go", "lineStringZ.go", "multipoint.go", "multipointZ.go", "polygon.go", "polygonZ.go", "multipolygon.go", "multipolygonZ.go"],
 [("editing", "lineString.go Append/SetPoint/InsertPoint/DelPoint/Reverse"), ("containers", "polygon.go, multipoint.go, multipolygon.go")],
 ["LineString", "LineStringZ", "MultiPoint.Append", "Polygon.SetExteriorRing", "Polygon.AddInteriorRing", "MultiPolygon.AddPolygon"],
 technique="explicit-state model checking: breadth-first search over the states of the real line under all editing operations, compared with a list model after every operation", note=N_BFS)
prop("L02", "Constructors keep the points in order and close rings exactly once",
 "Lines and multi-geometries hold exactly the points or parts they are made from, in order. Rings and polygons made from two or more points are those points, with the first repeated at the end unless the last equals it (within 1e-6); fewer points make no ring, and never a panic. Conversions between line and ring keep the points, Type names every geometry, and SetSrid works on every geometry that has it.",
 ["inputs"], "every sequence of up to 6 or 7 points over an alphabet with repeated, nearly equal and distinct points x every constructor, 2D and 3D",
 G_TESTS + "nearly closed, already closed and too short inputs take different branches in each constructor.",
 ["linearRing.go", "linearRingZ.go", "lineString.go", "lineStringZ.go", "polygon.go", "polygonZ.go", "srid.go", "type.go"],
 [("closing", "linearRing.go NewLinearRing/NewRingFromLine"), ("conversion", "lineString.go ToRing")], ["NewLinearRing", "NewRingFromLine", "LineString.ToRing", "NewPolygonFromPois", "NewLineString"], technique=T_ENUM, note=N_ENUM)
prop("L03", "Values made from a line stay independent of it",
 "A line, multi-point, ring, polygon, hull, simplification or split part made from a line (a ring: from an open line) keeps its points whatever is edited afterwards in the given line or in another value made from it, and the given line keeps its own; nothing is written behind the end of the caller's slice.",
 ["histories"], "every constructor or splitting operation x length x spare capacity x every sequence of editing operations, up to a depth, on any of the values",
 TESTS + "shared backing arrays show only through a later edit of the other value, and only with spare capacity.",
 ["lineString.go", "linearRing.go", "polygon.go", "multipoint.go", "simplify.go", "convexhull.go"], [("copies", "lineString.go SplitByIndex/ToRing, linearRing.go NewRingFromLine")], ["LineString.SplitByIndex", "LineString.ToRing", "NewLineString", "NewPolygonFromPois"],
 technique="bounded exhaustive model checking: every sequence of editing operations on aliased values of the real code against independent list models", note=N_BFS)

# ------------------------------------------------------------------ coordinate systems
prop("E01", "UTM conversion is accurate and inverts itself in every zone",
 "FromLatLon gives the UTM easting, northing, zone number, zone letter of a WGS84 position (2 mm within 3 degrees of the central meridian, 0.1 m in the widened zones), with zones half-open to the east and the exceptions of Norway and Svalbard, and ToLatLon returns the position to the same accuracy, given the letter or the hemisphere. Arguments outside the domain (latitude, longitude, easting, northing, zone, letter, contradictory hemisphere) are errors.",
 ["inputs"], "a grid over all zones, bands, zone and band limits and one ulp beside them; every zone x letter x hemisphere for the inverse; the ends of every argument range",
 G_TESTS + "zone limits, exceptions, hemispheres and letters are discrete cases a few cities do not reach.",
 ["utm.go"], [("forward series", "utm.go FromLatLon"), ("inverse series", "utm.go ToLatLon"), ("zones", "utm.go latlonToZoneNumber/zone letters")], ["FromLatLon", "ToLatLon", "ValidateLatLone"], technique=T_ENUM, note=N_ENUM)
prop("E02", "WGS84, GCJ02 and BD09 conversions follow the formulas and invert each other",
 "WGS84toGCJ02, GCJ02toBD09, WGS84toBD09 and their inverses are the published transforms (to 1e-10 degrees), the identity outside China's bounding box (longitude 73.66 to 135.05, latitude 3.86 to 53.55) for the GCJ02 offset, and going there and back returns the position to 1e-4 degrees or better.",
 ["inputs"], "a grid over China, its borders from both sides, and the world",
 G_TESTS + "border, sign and quadrant positions of the offset polynomials.",
 ["lonlat.go"], [("transforms", "lonlat.go WGS84toGCJ02/GCJ02toBD09/...")], ["WGS84toGCJ02", "GCJ02toWGS84", "GCJ02toBD09", "BD09toGCJ02", "WGS84toBD09", "BD09toWGS84"], technique=T_ENUM, note=N_ENUM)
prop("E03", "Geohash functions agree with each other and with the grid they describe",
 "For precisions 1 to 12, GeohashEncode gives the cell that contains the point, GeohashGetBoundary that cell's box, GeohashGetCenter its middle (which encodes to the same hash), and GeohashGetAllNeighbors the eight cells around it in the order N, NE, E, SE, S, SW, W, NW, across the date line as well (neighbours beyond a pole are left open).",
 ["inputs"], "every hash of up to 3 or 4 characters, a grid of points and cell borders at every precision",
 G_TESTS + "cell borders, odd and even precisions and the date line are discrete cases.",
 ["geohash.go"], [("geohash", "geohash.go")], ["GeohashEncode", "GeohashGetBoundary", "GeohashGetCenter", "GeohashGetAllNeighbors"], technique=T_ENUM, note=N_ENUM)
prop("E04", "S2 cell functions agree with each other at every level",
 "For SRID 4326 and levels 0 to 30, S2GetCellID gives a cell of the level that contains the point, S2GetCenter its centre (which maps back to the cell), S2GetBoundary its four corners counter-clockwise, and S2GetAllNeighbors the distinct cells of the same level that touch it; other reference systems give 0 or nothing.",
 ["inputs"], "a lon-lat grid with poles, date line, cube edges and corners x every level",
 G_TESTS + "cube edges, corners and levels are discrete cases.",
 ["googleS2.go"], [("cells", "googleS2.go")], ["S2GetCellID", "S2GetCenter", "S2GetBoundary", "S2GetAllNeighbors"], technique=T_ENUM, note=N_ENUM)
prop("E05", "S2RegionCoverer returns exactly the cells that meet the polygon",
 "For a simple outer ring smaller than 20 degrees that does not cross the antimeridian, S2RegionCoverer(poly, level, 4326) returns each cell of the level that meets the ring or its inside, and no other cell, once, whatever the direction and starting vertex of the ring; the caller's polygon is not changed. Cells that touch the ring within a thousandth of a cell may be in or out.",
 ["inputs"], "catalogue and grid rings x positions around the globe x levels x directions and starts",
 G_TESTS + "clockwise rings, covers of more than a few cells and cube edges are not sampled.",
 ["googleS2.go"], [("covering", "googleS2.go S2RegionCoverer")], ["S2RegionCoverer"], technique=T_ENUM, note=N_ENUM)

# ------------------------------------------------------------------ codecs
prop("W01", "wkt.Decode inverts the WKT encoding of every 2D geometry",
 "Every Point, MultiPoint, LineString, MultiLineString, Polygon and MultiPolygon with finite coordinates written as WKT decodes to an equal geometry of the same type, whatever the number format, the spaces next to parentheses and commas, and the MULTIPOINT variant; rings that are not closed are closed. What wkt encodes itself decodes back to the same geometry.",
 ["inputs"], "every structure of up to a few parts, rings and points x coordinate values of all formats x spacing variants",
 G_TESTS + "the string surgery depends on the number of parts, rings and points and on spacing.",
 ["wkt/decode.go", "wkt/encode.go"], [("decoder", "wkt Decode"), ("encoder", "wkt Encode")], ["wkt.Decode", "wkt.Encode"], technique=T_ENUM, note=N_ENUM)
prop("W02", "wkt.Decode never panics and never accepts certainly malformed text",
 "For any text wkt.Decode returns a geometry or an error, never neither and never a panic. Text that is valid WKT gives the geometry it denotes; text with a number missing or surplus in a coordinate, a word in place of a number, unbalanced parentheses, an empty list or an unknown keyword gives an error.",
 ["inputs"], "every sequence of WKT tokens up to a length, and every edit (deletion, replacement, insertion, swap of tokens) of valid texts",
 G_TESTS + "the space of malformed text is exponential in its length.",
 ["wkt/decode.go"], [("decoder", "wkt Decode")], ["wkt.Decode"], technique=T_ENUM, note=N_ENUM)
prop("W03", "The exported pieces of the WKT encoder and decoder agree with the whole",
 "GeometryToWktString, PathToWktString, PolygonToWktString(2), MultiPolygonToWktString and their Z variants write the coordinate text of WKT for every sequence of points, lines, rings and polygons; PointFromWKT, MultiPointFromWKT, LineStringFromWKT, MultiLineStringFromWKT, PolygonFromWKT and MultiPolygonFromWKT read the text between a geometry's outermost parentheses back to the same geometry, 2D and 3D, and return an error, not a panic or nothing at all, for text that is not the body of such a geometry.",
 ["inputs"], "every structure of up to a few parts, rings and points x coordinate values of all formats; every sequence of tokens up to a length through every reader",
 G_TESTS + "each piece has its own loop over parts and its own error paths.",
 ["wkt/decode.go", "wkt/encode.go"], [("readers", "wkt *FromWKT"), ("writers", "wkt *ToWktString*")], ["wkt.*FromWKT", "wkt.*ToWktString*"], technique=T_ENUM, note=N_ENUM)
prop("J01", "GeoJSON geometries survive MarshalGeo and UnmarshalGeo",
 "MarshalGeo writes every geometry type as the GeoJSON object of RFC 7946 (type name, coordinates in order and nesting, heights as third numbers). UnmarshalGeo reads Point, PointZ, LineString, LineStringZ, Polygon and PolygonZ objects back to the same type and coordinates; for the Multi types, which it documents as not supported, it returns an error or the right geometry. The exported converters give the coordinates of the types they are for and an error for any other.",
 ["inputs"], "every structure of up to a few parts, rings and points x every type x coordinate values of all formats",
 G_TESTS + "nesting, dimension and part count combine.",
 ["geojson/geojson.go"], [("encoder", "geojson MarshalGeo"), ("decoder", "geojson UnmarshalGeo")], ["geojson.MarshalGeo", "geojson.UnmarshalGeo"], technique=T_ENUM, note=N_ENUM)
prop("J02", "UnmarshalGeo never panics and rejects malformed geometries",
 "For any bytes UnmarshalGeo returns a geometry or an error and never panics. Coordinates of the wrong nesting, positions of fewer than two or more numbers than the type has, mixed dimensions, non-numbers, missing or unknown type give an error.",
 ["inputs"], "every JSON value up to a depth as coordinates of every type; every edit of valid objects; truncations",
 G_TESTS + "the space of malformed objects is exponential in depth.",
 ["geojson/geojson.go"], [("decoder", "geojson UnmarshalGeo")], ["geojson.UnmarshalGeo"], technique=T_ENUM, note=N_ENUM)
prop("J03", "Features and collections keep what is set through editing and encoding",
 "Under any sequence of SetProperty, SetBoundingBox, id changes, AddFeature and encoding and decoding, a Feature encodes to the GeoJSON object with its geometry, id, bounding box and the properties set last, and decoding gives back an equal feature; a FeatureCollection holds its features in the order they were added. Encoding changes nothing.",
 ["histories"], "breadth-first over all operation sequences on a feature and on a collection for every geometry type",
 TESTS + "what a feature holds depends on the sequence of edits and decodings.",
 ["geojson/feature.go", "geojson/feature_collection.go"], [("features", "geojson Feature"), ("collections", "geojson FeatureCollection")], ["geojson.NewFeature", "geojson.UnmarshalFeature", "geojson.NewFeatureCollection", "geojson.UnmarshalFeatureCollection"],
 technique="explicit-state model checking: breadth-first search over the states of real features and collections, encoded, decoded and compared with a model after every operation", note=N_BFS)
prop("J04", "Property getters return the property of the right type or the default",
 "PropertyBool, PropertyInt, PropertyFloat64 and PropertyString return the stored value when it has (or, for numbers, converts to) the type, an error otherwise, and the Must variants return the given default (or the zero value without one) exactly when the property is missing or of another type. A nil property map behaves as an empty one, and SetProperty changes only its own key.",
 ["inputs", "histories"], "every value kind x getter x default x presence; sequences of SetProperty",
 G_TESTS + "the table of value kinds and getters is not covered.",
 ["geojson/properties.go"], [("getters", "geojson properties")], ["geojson.Feature.PropertyMust*", "geojson.Feature.Property*"], technique=T_ENUM, note=N_ENUM)

# ------------------------------------------------------------------ purity and concurrency
ALLF = ["rtree.go", "box.go", "point.go", "lineString.go", "linearRing.go", "polygon.go", "relation.go", "contain.go", "convexhull.go", "simplify.go", "calcaulation.go", "lonlat.go", "utm.go", "geohash.go", "googleS2.go", "mbr.go", "buffer.go", "wkt/decode.go", "wkt/encode.go", "geojson/geojson.go", "geojson/feature.go"]
prop("C01", "Operations edit only what they say and depend only on their arguments",
 "A call of an exported function or non-editing method leaves every argument (vertices, rings, feature properties, spare slice capacity, R-tree contents) as it was and gives the same result whatever was called before it, also when the caller has edited an argument in place since; results returned earlier keep their contents when the operation is called again with other arguments or when a caller edits another result, and a result shares no memory with the arguments, except views such as GetPointSet, GetExteriorRing, GetPoint, ToLineString, NewFeature and a ring made of an already closed line (stored objects share their geometries with the R-tree). Editing methods (tree updates, SetSrid, Append*, Add*, Set*) change only their receiver; the slices of objects passed to and returned by the R-tree are not shared with it.",
 ["histories", "inputs"], "every sequence of two (thorough: three) operations from a catalogue over the exported functions of the three packages, on shared and separate arguments; every operation, every edit of one coordinate (or all) of its arguments in place and every operation on them after that; every sequence of R-tree queries and updates on two trees",
 TESTS + "a reused buffer, an aliased slice or a lazily filled cache shows only when a second particular call follows.",
 ALLF, [("operations", "all exported functions"), ("slices in and out of the tree", "rtree.go SearchIntersect/NearestNeighbors/bulkLoad")],
 ["every exported operation; arguments after the call"],
 technique="bounded exhaustive model checking: every sequence of two (thorough: three) operations of a catalogue on the real code, each outcome compared with the operation's outcome as the first one of a new process", note="exhaustive over the catalogue of operations and its arguments, up to the stated sequence length; nothing is claimed for other arguments or longer sequences")
prop("T01", "Operations never panic or loop on empty, degenerate or non-finite input",
 "For geometries of any type that are nil, empty, of too few points, unclosed, with empty or missing rings, with coincident points, with NaN, infinite or huge coordinates, and for zero, negative, huge or non-finite numbers (thresholds, radii, k, SRIDs), every exported function returns (a value or an error) and the R-tree keeps working. Exceptions are nil pointers, slice positions outside a line, division of a vector by zero, geohash precisions over 12, and non-finite coordinates for S2RegionCoverer.",
 ["inputs"], "every combination of arguments from pools of degenerate, ordinary and non-finite values of each parameter type, for every function of a list that covers the exported API",
 TESTS + "which combination of degenerate arguments reaches an unguarded index, division or loop is not known in advance.",
 ALLF, [("argument handling", "every exported function"), ("loops to a threshold", "simplify.go dpWorker"), ("buffers by k", "rtree.go NearestNeighbors"), ("choice of subtree", "rtree.go chooseNode")],
 ["every exported operation"], technique=T_ENUM, note=N_ENUM)
prop("C02", "Concurrent calls of non-editing operations on shared values are safe",
 "Goroutines that call exported functions and non-editing methods at the same time, on shared geometries, features and an R-tree that nobody edits, each get the result they would get alone, for every interleaving: no operation keeps intermediate state where another one sees it, writes to an argument even temporarily, or accesses shared memory without synchronisation, and none deadlocks or panics.",
 ["schedules"], "every pair of operations of a catalogue over the exported functions; every schedule with one preemption (two for selected pairs) between statements of the library; every pair checked for conflicting unsynchronised accesses",
 "the tests are single-threaded; a test run with goroutines samples a few of the interleavings.",
 ALLF, [("operations", "all exported functions"), ("tree queries", "rtree.go searchIntersectWithCond/nearestNeighbors")],
 ["every exported operation called from two goroutines"],
 technique="stateless model checking of the real code: a controlled cooperative scheduler enumerates every schedule of every pair of operations up to a preemption bound; every pair is also run under a happens-before monitor", note="exhaustive over the catalogue's pairs and the schedules within the preemption bound stated in the evidence; two goroutines with one operation each")
