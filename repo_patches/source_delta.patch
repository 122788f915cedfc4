From f9de1d874cfd62baa473a4fbf05d8fc5133e295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:33 +0000
Subject: [PATCH 01/33] fix: encode the rings of a 3D polygon in GeoJSON

---
 geojson/geojson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geojson/geojson.go b/geojson/geojson.go
index 9005eb7..ef60a8a 100644
--- a/geojson/geojson.go
+++ b/geojson/geojson.go
@@ -75,7 +75,7 @@ func MarshalGeo(geom geo.Geometry) ([]byte, error) {
 		}
 	case geo.PolygonZ:
 		geoj.Type = "Polygon"
-		geoj.Coordinates, err = ConvertPathSet(geom)
+		geoj.Coordinates, err = ConvertPathZSet(geom)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 9c00f7141fffd0d57cb7cfd3e3b242d58dfb630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:34 +0000
Subject: [PATCH 02/33] fix: EuclideanDisZ ignored its second point

---
 pointZ.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointZ.go b/pointZ.go
index 46ff89b..8884a55 100644
--- a/pointZ.go
+++ b/pointZ.go
@@ -27,7 +27,7 @@ func (p *PointZ) SetZ(z float64) {
 }
 
 func EuclideanDisZ(p1, p2 PointZ) float64 {
-	return math.Sqrt(p1.X*p1.X + p1.Y*p1.Y + p1.Z*p1.Z)
+	return math.Sqrt((p1.X-p2.X)*(p1.X-p2.X) + (p1.Y-p2.Y)*(p1.Y-p2.Y) + (p1.Z-p2.Z)*(p1.Z-p2.Z))
 }
 
 //判断元素是否相等
-- 
2.43.0


From 243cce32a01661e55d59d26985547eb39a7a2dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:35 +0000
Subject: [PATCH 03/33] fix: lines of different lengths are not equal

---
 lineString.go  | 3 +++
 lineStringZ.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lineString.go b/lineString.go
index 2d673f9..e1265ec 100644
--- a/lineString.go
+++ b/lineString.go
@@ -109,6 +109,9 @@ func (line LineString) Length() float64 {
 
 //判断两条线是不是相同
 func (line1 LineString) Equal(line2 LineString) bool {
+	if line1.GetPointCount() != line2.GetPointCount() {
+		return false
+	}
 	for i := 0; i < line1.GetPointCount(); i++ {
 		if !line1[i].Equal(line2[i]) {
 			return false
diff --git a/lineStringZ.go b/lineStringZ.go
index dad543b..e0c1b8a 100644
--- a/lineStringZ.go
+++ b/lineStringZ.go
@@ -38,6 +38,9 @@ func (line *LineStringZ) Append(point PointZ) error {
 
 //判断两条线是不是相同
 func (line1 LineStringZ) Equal(line2 LineStringZ) bool {
+	if line1.GetPointCount() != line2.GetPointCount() {
+		return false
+	}
 	for i := 0; i < line1.GetPointCount(); i++ {
 		if !line1[i].Equal(line2[i]) {
 			return false
-- 
2.43.0


From b6587ee4f7db47bb1b96276031d4b0d3b4a5aa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:36 +0000
Subject: [PATCH 04/33] fix: InsertPoint at the end of a line inserted the
 point twice

---
 lineString.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineString.go b/lineString.go
index e1265ec..5c94c27 100644
--- a/lineString.go
+++ b/lineString.go
@@ -83,7 +83,7 @@ func (line *LineString) InsertPoint(position int, point Point) error {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
-		line.Append(point)
+		return line.Append(point)
 	}
 	*line = append((*line)[:position+1], (*line)[position:]...)
 	(*line)[position] = point
-- 
2.43.0


From 5007cef2d54b42040c278263b0e0ffc5eb96b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:37 +0000
Subject: [PATCH 05/33] fix: negative positions on a line are reported instead
 of panicking

---
 lineString.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lineString.go b/lineString.go
index 5c94c27..4dd2b4e 100644
--- a/lineString.go
+++ b/lineString.go
@@ -54,7 +54,7 @@ func (line LineString) GetEndPoint() *Point {
 
 //取特定点
 func (line LineString) GetPoint(index int) *Point {
-	if index > line.GetPointCount()-1 {
+	if index < 0 || index > line.GetPointCount()-1 {
 		return nil
 	}
 	return &line[index]
@@ -67,7 +67,7 @@ func (line *LineString) Append(point Point) error {
 
 //在指定位置改变linestring的点
 func (line *LineString) SetPoint(position int, point Point) error {
-	if line.GetPointCount() < position {
+	if position < 0 || line.GetPointCount() < position {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
@@ -79,7 +79,7 @@ func (line *LineString) SetPoint(position int, point Point) error {
 
 //在指定位置插入点
 func (line *LineString) InsertPoint(position int, point Point) error {
-	if line.GetPointCount() < position {
+	if position < 0 || line.GetPointCount() < position {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
@@ -92,7 +92,7 @@ func (line *LineString) InsertPoint(position int, point Point) error {
 
 //在指定位置删除点
 func (line *LineString) DelPoint(position int) error {
-	if line.GetPointCount() <= position {
+	if position < 0 || line.GetPointCount() <= position {
 		return errors.New("line has no such position")
 	}
 	(*line) = append((*line)[:position], (*line)[position+1:]...)
-- 
2.43.0


From 872c3270d1185a178b23f8f0844c265657a6dcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:38 +0000
Subject: [PATCH 06/33] fix: a ring built from a line no longer shares or
 overwrites its storage

---
 linearRing.go  | 5 ++---
 linearRingZ.go | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/linearRing.go b/linearRing.go
index 6751f00..5c281f0 100644
--- a/linearRing.go
+++ b/linearRing.go
@@ -19,11 +19,10 @@ func NewRingFromLine(line LineString) *LinearRing {
 	firstPoint := line[0]
 	endPoint := line[len(line)-1]
 	if firstPoint.Equal(endPoint) {
-		linearRing := LinearRing(line)
+		linearRing := LinearRing(*NewLineString(line...))
 		return &linearRing
 	} else {
-		line = append(line, firstPoint)
-		linearRing := LinearRing(line)
+		linearRing := LinearRing(append(*NewLineString(line...), firstPoint))
 		return &linearRing
 	}
 }
diff --git a/linearRingZ.go b/linearRingZ.go
index f1575f0..c98eb9a 100644
--- a/linearRingZ.go
+++ b/linearRingZ.go
@@ -15,11 +15,10 @@ func NewRingFromLineZ(line LineStringZ) *LinearRingZ {
 	firstPoint := line[0]
 	endPoint := line[len(line)-1]
 	if firstPoint.Equal(endPoint) {
-		LinearRingZ := LinearRingZ(line)
+		LinearRingZ := LinearRingZ(*NewLineStringZ(line...))
 		return &LinearRingZ
 	} else {
-		line = append(line, firstPoint)
-		LinearRingZ := LinearRingZ(line)
+		LinearRingZ := LinearRingZ(append(*NewLineStringZ(line...), firstPoint))
 		return &LinearRingZ
 	}
 }
-- 
2.43.0


From 2eb4b0714e7aa884dc75b408b738eeb3ea77bf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:38 +0000
Subject: [PATCH 07/33] fix: rings of fewer than two points are reported
 instead of panicking

---
 calcaulation.go | 2 +-
 lineString.go   | 6 +++++-
 lineStringZ.go  | 6 +++++-
 linearRingZ.go  | 3 +++
 polygon.go      | 3 +++
 polygonZ.go     | 3 +++
 6 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index 1fc39e7..d16f39f 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -180,7 +180,7 @@ func Centroid(geo Geometry) Point {
 
 //TODO:如果线在一条直线上，需要改进算法
 func lineCentroid(line LineString) Point {
-	return LinearCentroid(*NewRingFromLine(line))
+	return LinearCentroid(line.ToRing())
 }
 
 func LinearCentroid(ring LinearRing) Point {
diff --git a/lineString.go b/lineString.go
index 4dd2b4e..9fd84a9 100644
--- a/lineString.go
+++ b/lineString.go
@@ -129,7 +129,11 @@ func (line *LineString) Reverse() {
 }
 
 func (line LineString) ToRing() LinearRing {
-	return *NewRingFromLine(line)
+	ring := NewRingFromLine(line)
+	if ring == nil {
+		return nil
+	}
+	return *ring
 }
 
 func (line LineString) GetPointSet() []Point {
diff --git a/lineStringZ.go b/lineStringZ.go
index e0c1b8a..30ab28d 100644
--- a/lineStringZ.go
+++ b/lineStringZ.go
@@ -58,7 +58,11 @@ func (line *LineStringZ) Reverse() {
 }
 
 func (line LineStringZ) ToRing() LinearRingZ {
-	return *NewRingFromLineZ(line)
+	ring := NewRingFromLineZ(line)
+	if ring == nil {
+		return nil
+	}
+	return *ring
 }
 
 func (line LineStringZ) GetPointSet() []PointZ {
diff --git a/linearRingZ.go b/linearRingZ.go
index c98eb9a..f7b7777 100644
--- a/linearRingZ.go
+++ b/linearRingZ.go
@@ -12,6 +12,9 @@ func NewLinearRingZ(point ...PointZ) *LinearRingZ {
 }
 
 func NewRingFromLineZ(line LineStringZ) *LinearRingZ {
+	if line.GetPointCount() < 2 {
+		return nil
+	}
 	firstPoint := line[0]
 	endPoint := line[len(line)-1]
 	if firstPoint.Equal(endPoint) {
diff --git a/polygon.go b/polygon.go
index 273e699..aa5a0e9 100644
--- a/polygon.go
+++ b/polygon.go
@@ -15,6 +15,9 @@ func NewPolygon(lrs ...LinearRing) *Polygon {
 
 func NewPolygonFromPois(pts ...Point) *Polygon {
 	ring := NewLinearRing(pts...)
+	if ring == nil {
+		return NewPolygon()
+	}
 	return NewPolygon(*ring)
 }
 
diff --git a/polygonZ.go b/polygonZ.go
index d906781..0a1a256 100644
--- a/polygonZ.go
+++ b/polygonZ.go
@@ -13,6 +13,9 @@ func NewPolygonZ(lrs ...LinearRingZ) *PolygonZ {
 
 func NewPolygonZFromPois(pts ...PointZ) *PolygonZ {
 	ring := NewLinearRingZ(pts...)
+	if ring == nil {
+		return NewPolygonZ()
+	}
 	return NewPolygonZ(*ring)
 }
 
-- 
2.43.0


From 3d0f62afb723302732459070ecdbcf958cd5c302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:39 +0000
Subject: [PATCH 08/33] fix: ConvexHull and Mbr left the caller's points
 reordered

---
 convexhull.go | 2 +-
 mbr.go        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/convexhull.go b/convexhull.go
index 7ef65da..67d846f 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -50,7 +50,7 @@ func ConvexHull(pts ...Point) Polygon {
 	if len(pts) < 3 {
 		return nil
 	}
-	points := hullPts(pts)
+	points := append(hullPts{}, pts...)
 	var stack hullPts
 	points.FindLowestPoint()
 	sort.Sort(&points)
diff --git a/mbr.go b/mbr.go
index 9219884..b75174d 100644
--- a/mbr.go
+++ b/mbr.go
@@ -30,6 +30,7 @@ func Mbr(geom Geometry) Polygon {
 	if math.IsNaN(cpt.X) || math.IsNaN(cpt.Y) {
 		return nil
 	}
+	coords = convexHull.GetExteriorPoints()
 	minArea := math.MaxFloat64
 	minAngle := 0.0
 	ci := coords[0]
-- 
2.43.0


From 53bf56a76ca6e2d4774df0ed834c50a623a4f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:40 +0000
Subject: [PATCH 09/33] fix: DouglasPeuckerSimplify overwrote the line it was
 given

---
 simplify.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simplify.go b/simplify.go
index 95a300a..3bde988 100644
--- a/simplify.go
+++ b/simplify.go
@@ -11,6 +11,7 @@ func DouglasPeuckerSimplify(line LineString, threshold float64, srid SRID) LineS
 	//排序，从后往前删
 	sort.Sort(sort.Reverse(sort.IntSlice(delIndexs)))
 
+	line = *NewLineString(line...)
 	for _, v := range delIndexs {
 		line = append(line[:v], line[v+1:]...)
 	}
-- 
2.43.0


From b28abb5e45c093865c73dd5af33b43f5289442e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:41 +0000
Subject: [PATCH 10/33] fix: S2RegionCoverer reversed the caller's ring in
 place

---
 googleS2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/googleS2.go b/googleS2.go
index 25499ff..a481308 100644
--- a/googleS2.go
+++ b/googleS2.go
@@ -50,7 +50,7 @@ func S2GetAllNeighbors(cellID uint64, srid SRID) []uint64 {
 
 func S2RegionCoverer(poly Polygon, level int, srid SRID) []uint64 {
 	if poly.IsCCW() {
-		pois := poly.GetExteriorRing().GetPointSet()
+		pois := append([]Point{}, poly.GetExteriorRing().GetPointSet()...)
 		for i, j := 0, len(pois)-1; i < j; i, j = i+1, j-1 {
 			pois[i], pois[j] = pois[j], pois[i]
 		}
-- 
2.43.0


From 1c5940d08940176f996de9d7300799399e455f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:42 +0000
Subject: [PATCH 11/33] fix: the two halves of SplitByIndex shared storage

---
 lineString.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lineString.go b/lineString.go
index 9fd84a9..3234f85 100644
--- a/lineString.go
+++ b/lineString.go
@@ -142,7 +142,7 @@ func (line LineString) GetPointSet() []Point {
 
 //从指定位置分成两条线
 func (line LineString) SplitByIndex(index int) (LineString, LineString) {
-	line1 := line[:index+1]
-	line2 := line[index:]
-	return line1, line2
+	line1 := NewLineString(line[:index+1]...)
+	line2 := NewLineString(line[index:]...)
+	return *line1, *line2
 }
-- 
2.43.0


From 78254d9727b3af850378203188860aea54444777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:43 +0000
Subject: [PATCH 12/33] fix: BoxToGeo returned a ring that was not closed

---
 box.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box.go b/box.go
index 1ba1f53..d77bf00 100644
--- a/box.go
+++ b/box.go
@@ -43,7 +43,7 @@ func BoxToGeo(b Box) Geometry {
 		//元素是条线 x坐标不同
 		return LineString{p1, p2}
 	}
-	return *NewPolygon(LinearRing{p1, p2, p3, p4})
+	return *NewPolygonFromPois(p1, p2, p3, p4)
 }
 
 func calBox(points ...Point) *Box {
-- 
2.43.0


From 25d50549c6cf49581e600e796e0abe20690317e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:44 +0000
Subject: [PATCH 13/33] fix: SetSrid panicked on the nil SRID map

---
 srid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srid.go b/srid.go
index 2ce468a..0386afe 100644
--- a/srid.go
+++ b/srid.go
@@ -1,3 +1,3 @@
 package geo
 
-var SridMap map[interface{}]uint64
+var SridMap = make(map[interface{}]uint64)
-- 
2.43.0


From f5f081c5546d89e8c6c3aec97322f873c264fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:44 +0000
Subject: [PATCH 14/33] fix: Feature.SetBoundingBox lost the box it computed

---
 geojson/feature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geojson/feature.go b/geojson/feature.go
index faac598..b8be919 100644
--- a/geojson/feature.go
+++ b/geojson/feature.go
@@ -29,7 +29,7 @@ func NewFeature(geometry geo.Geometry) *Feature {
 	}
 }
 
-func (f Feature) SetBoundingBox() {
+func (f *Feature) SetBoundingBox() {
 	box := geo.BoundingBox(f.Geometry)
 	f.BoundingBox = []float64{box.MinX, box.MinY, box.MaxX, box.MaxY}
 }
-- 
2.43.0


From fb6ab9aa277575f2fdae163e789d2f78cbe211df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 15/33] fix: distance to a segment whose ends coincide was NaN

---
 calcaulation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/calcaulation.go b/calcaulation.go
index d16f39f..29d7c66 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -132,7 +132,7 @@ func PointToSegmentDistance(point, p1, p2 Point, srid SRID) (float64, Point) {
 	var u float64 = ((point.X-p1.X)*xDelta + (point.Y-p1.Y)*yDelta) / (xDelta*xDelta + yDelta*yDelta)
 
 	var closestPointOnLine Point
-	if u < 0 {
+	if u < 0 || (xDelta == 0 && yDelta == 0) {
 		closestPointOnLine = p1
 	} else if u > 1 {
 		closestPointOnLine = p2
@@ -148,6 +148,9 @@ func PointToSegmentDistance(point, p1, p2 Point, srid SRID) (float64, Point) {
 func PointToLineDistance(point, p1, p2 Point, srid SRID) (float64, Point, float64) {
 	var xDelta float64 = p2.X - p1.X
 	var yDelta float64 = p2.Y - p1.Y
+	if xDelta == 0 && yDelta == 0 {
+		return PointDistance(point, p1, srid), p1, 0
+	}
 	var u float64 = ((point.X-p1.X)*xDelta + (point.Y-p1.Y)*yDelta) / (xDelta*xDelta + yDelta*yDelta)
 
 	var closestPointOnLine Point
-- 
2.43.0


From 9667cbdc3264657715e627d59e6125800885e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:51 +0000
Subject: [PATCH 16/33] fix: IsPointOnSegment tested against an empty box, so
 boundary points were never seen

---
 relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index 6657564..8a1f446 100644
--- a/relation.go
+++ b/relation.go
@@ -113,7 +113,7 @@ func IsPointOnLine(point Point, line LineString) bool {
 func IsPointOnSegment(p1, p2, point Point) bool {
 	//保证Q点坐标在p1,p2之间 且叉积为0
 	if (point.X-p1.X)*(p2.Y-p1.Y) == (p2.X-p1.X)*(point.Y-p1.Y) &&
-		IsPointInBox(BoundingBox(NewLineString(p1, p2)), point) {
+		IsPointInBox(BoundingBox(*NewLineString(p1, p2)), point) {
 		return true
 	}
 	return false
-- 
2.43.0


From 7cf998d3a18ac26bbc4f1bab5c0604185c2e224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:52 +0000
Subject: [PATCH 17/33] fix: ring relations and SelfIntersect skipped the
 closing edge

---
 polygon.go  | 2 +-
 relation.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/polygon.go b/polygon.go
index aa5a0e9..e5e9a6a 100644
--- a/polygon.go
+++ b/polygon.go
@@ -88,7 +88,7 @@ func (poly Polygon) SelfIntersect() bool {
 	for i := 0; i < pointCount-1; i++ {
 		srcV0 := exRing[i]
 		srcV1 := exRing[(i+1)%pointCount]
-		for j := i + 1; j < pointCount-2; j++ {
+		for j := i + 1; j < pointCount-1; j++ {
 			dstV0 := exRing[j]
 			dstV1 := exRing[j+1]
 			relation := SegmentRelation(LineSegment{srcV0, srcV1}, LineSegment{dstV0, dstV1})
diff --git a/relation.go b/relation.go
index 8a1f446..9481fdd 100644
--- a/relation.go
+++ b/relation.go
@@ -30,7 +30,7 @@ func SegPolyRelation(seg LineSegment, poly Polygon) GeometryRealation {
 	lr := poly.GetExteriorRing()
 	pointCount := lr.GetPointCount()
 	isPointOnBoundary := false
-	for i := 0; i < pointCount-2; i++ {
+	for i := 0; i < pointCount-1; i++ {
 		pntStart := lr[i]
 		pntEnd := lr[i+1]
 		relation := SegmentRelation(LineSegment{pntStart, pntEnd}, seg)
@@ -76,7 +76,7 @@ func LinearPolyRelation(line LinearRing, poly Polygon) GeometryRealation {
 	//对环进行打断，去掉最后一个点
 	pointCount := line.GetPointCount()
 	curRelation := RELA_UNKNOWN
-	for i := 0; i < pointCount-2; i++ {
+	for i := 0; i < pointCount-1; i++ {
 		Start := line[i]
 		End := line[i+1]
 		relation := SegPolyRelation(LineSegment{Start, End}, poly)
-- 
2.43.0


From 917de0c25aa244d891e6cb19a0a2cb446108cf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:52 +0000
Subject: [PATCH 18/33] fix: IsPointOnLine took the chord between the ends of
 an open line for part of it

---
 relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index 9481fdd..901efba 100644
--- a/relation.go
+++ b/relation.go
@@ -99,7 +99,7 @@ func IsPointOnLine(point Point, line LineString) bool {
 	isOn := false
 	for i := range line {
 		if i == line.GetPointCount()-1 {
-			isOn = IsPointOnSegment(line[0], line[line.GetPointCount()-1], point)
+			isOn = IsPointOnSegment(line[i], line[i], point)
 		} else {
 			isOn = IsPointOnSegment(line[i], line[i+1], point)
 		}
-- 
2.43.0


From a5f6d121eaf2466bb6146fe5d548542a7cb7b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:53 +0000
Subject: [PATCH 19/33] fix: Polygon.Verify checked longitudes against the
 latitude range

---
 polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polygon.go b/polygon.go
index e5e9a6a..2568311 100644
--- a/polygon.go
+++ b/polygon.go
@@ -68,7 +68,7 @@ func (p *Polygon) Verify() error {
 		return errors.New("polygon invaild, point less than 3")
 	}
 	for i := 0; i < ptCount; i++ {
-		if extring[i].X > 90.0 || extring[i].X < -90 || extring[i].Y > 180.0 || extring[i].Y < -180.0 {
+		if extring[i].Y > 90.0 || extring[i].Y < -90 || extring[i].X > 180.0 || extring[i].X < -180.0 {
 			return errors.New("lnglat invaild, lat[-90,90] lng[-180,180]")
 		}
 	}
-- 
2.43.0


From 708cb47c80fe288c594dc86531edc87fc7d9a21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:54 +0000
Subject: [PATCH 20/33] fix: longitude 180 and latitude 84 got an invalid UTM
 zone

---
 utm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utm.go b/utm.go
index 30233e8..f50cc16 100755
--- a/utm.go
+++ b/utm.go
@@ -46,7 +46,6 @@ func rad(d float64) float64 { return d * x }
 func deg(r float64) float64 { return r / x }
 
 var zoneLetters = []zoneLetter{
-	{84, " "},
 	{72, "X"},
 	{64, "W"},
 	{56, "V"},
@@ -266,6 +265,9 @@ func latLonToZoneNumber(latitude float64, longitude float64) int {
 		}
 	}
 
+	if longitude >= 180 {
+		return 60
+	}
 	return int((longitude+180)/6) + 1
 }
 
-- 
2.43.0


From ad6ec05ef85143952ec4a4846cff38a7f38f0602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:55 +0000
Subject: [PATCH 21/33] fix: bounding box of coordinates beyond 2^31 was the
 sentinel

---
 box.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/box.go b/box.go
index d77bf00..11666e3 100644
--- a/box.go
+++ b/box.go
@@ -48,6 +48,9 @@ func BoxToGeo(b Box) Geometry {
 
 func calBox(points ...Point) *Box {
 	var minX, minY, maxX, maxY float64 = INF, INF, -INF, -INF
+	if len(points) > 0 {
+		minX, minY, maxX, maxY = points[0].X, points[0].Y, points[0].X, points[0].Y
+	}
 	for _, v := range points {
 		if minX > v.X {
 			minX = v.X
-- 
2.43.0


From 7e30953f93e2c26e86fbc3ee8383062a00b21e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:56 +0000
Subject: [PATCH 22/33] fix: leaves of a bulk loaded tree overwrote each other
 on insert

---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 0282fce..5f43a92 100644
--- a/rtree.go
+++ b/rtree.go
@@ -117,7 +117,7 @@ func walkPartitions(k int, objs []entry, iter func(parts []entry)) {
 	n := (len(objs) + k - 1) / k // ceil(len(objs) / k)
 
 	for i := 1; i < n; i++ {
-		iter(objs[(i-1)*k : i*k])
+		iter(objs[(i-1)*k : i*k : i*k])
 	}
 	iter(objs[(n-1)*k:])
 }
-- 
2.43.0


From 2536e416a0152e2bfdb80e699006a0dcdcf8c7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 23/33] fix: Delete panicked on objects whose geometry is a
 slice

---
 rtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 5f43a92..11598bb 100644
--- a/rtree.go
+++ b/rtree.go
@@ -3,6 +3,7 @@ package geo
 import (
 	"fmt"
 	"math"
+	"reflect"
 	"sort"
 	"time"
 )
@@ -530,7 +531,7 @@ func (tree *Rtree) Delete(obj Spatial) bool {
 		if len(object) != 2 {
 			return false
 		}
-		return object[0] == object[1]
+		return reflect.DeepEqual(object[0], object[1])
 	}
 	return tree.DeleteWithComparator(obj, condition)
 }
-- 
2.43.0


From afd4ace30d121e02acb1f96d29663ee628981b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 24/33] fix: InsertWithRandomId put a function address in the
 id

---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 11598bb..9d9dda6 100644
--- a/rtree.go
+++ b/rtree.go
@@ -270,7 +270,7 @@ func (tree *Rtree) Insert(obj Spatial) {
 
 // 插入rtree
 func (tree *Rtree) InsertWithRandomId(geom Geometry) {
-	e := entry{BoundingBox(geom), nil, Spatial{fmt.Sprintf("%d_1_%d", time.Now().UnixNano(), tree.Size), nil, geom}}
+	e := entry{BoundingBox(geom), nil, Spatial{fmt.Sprintf("%d_1_%d", time.Now().UnixNano(), tree.Size()), nil, geom}}
 	tree.insert(e, 1)
 	tree.size++
 }
-- 
2.43.0


From aa0d8d4850021e2c31ac1b77176bcb80901ad9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:59 +0000
Subject: [PATCH 25/33] fix: NearestNeighbors panicked when asked for no
 neighbours

---
 rtree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtree.go b/rtree.go
index 9d9dda6..47ece55 100644
--- a/rtree.go
+++ b/rtree.go
@@ -789,6 +789,9 @@ func (p *Point) minDist(r *Box) float64 {
 
 // NearestNeighbors gets the closest Spatials to the Point.
 func (tree *Rtree) NearestNeighbors(k int, p Point) []Spatial {
+	if k <= 0 {
+		return []Spatial{}
+	}
 	maxBufSize := tree.MaxChildren * tree.Depth()
 	branches := make([]entry, maxBufSize)
 	branchDists := make([]float64, maxBufSize)
-- 
2.43.0


From ad04d13ca0617d277e8f57b30900b657beb45035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:59 +0000
Subject: [PATCH 26/33] fix: PropertyInt did not name the property in its error

---
 geojson/properties.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geojson/properties.go b/geojson/properties.go
index d4f5fac..d71eed9 100644
--- a/geojson/properties.go
+++ b/geojson/properties.go
@@ -1,7 +1,6 @@
 package geojson
 
 import (
-	"errors"
 	"fmt"
 )
 
@@ -32,7 +31,7 @@ func (f *Feature) PropertyInt(key string) (int, error) {
 		return int(i), nil
 	}
 
-	return 0, errors.New("type assertion of `%s` to int failed")
+	return 0, fmt.Errorf("type assertion of `%s` to int failed", key)
 }
 
 // PropertyFloat64 type asserts a property to `float64`.
-- 
2.43.0


From a24dc04e80d2193691aed7edece8d8baa5908907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:00 +0000
Subject: [PATCH 27/33] fix: the convex hull of more than twelve points was
 sorted around a moving pivot

---
 convexhull.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/convexhull.go b/convexhull.go
index 67d846f..670e23d 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -16,12 +16,19 @@ func (p hullPts) Swap(i, j int) {
 	p[i], p[j] = p[j], p[i]
 }
 
-func (p hullPts) Less(i, j int) bool {
-	area := Area2(p[0], p[i], p[j])
+//hullOrder sorts points by their angle around pivot, which is not one of them
+type hullOrder struct {
+	hullPts
+	pivot Point
+}
+
+func (h hullOrder) Less(i, j int) bool {
+	p := h.hullPts
+	area := Area2(h.pivot, p[i], p[j])
 
 	if area == 0 {
-		x := math.Abs(p[i].X-p[0].X) - math.Abs(p[j].X-p[0].X)
-		y := math.Abs(p[i].Y-p[0].Y) - math.Abs(p[j].Y-p[0].Y)
+		x := math.Abs(p[i].X-h.pivot.X) - math.Abs(p[j].X-h.pivot.X)
+		y := math.Abs(p[i].Y-h.pivot.Y) - math.Abs(p[j].Y-h.pivot.Y)
 
 		if x < 0 || y < 0 {
 			return true
@@ -53,7 +60,7 @@ func ConvexHull(pts ...Point) Polygon {
 	points := append(hullPts{}, pts...)
 	var stack hullPts
 	points.FindLowestPoint()
-	sort.Sort(&points)
+	sort.Sort(hullOrder{points[1:], points[0]})
 	stack = append(stack, points[0])
 	stack = append(stack, points[1])
 	i := 2
-- 
2.43.0


From 607f957642bb472119362c453d242c5a6726b434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:33 +0000
Subject: [PATCH 28/33] fix: malformed GeoJSON geometries are reported instead
 of panicking

---
 geojson/geojson.go | 43 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/geojson/geojson.go b/geojson/geojson.go
index ef60a8a..50dfd5a 100644
--- a/geojson/geojson.go
+++ b/geojson/geojson.go
@@ -98,6 +98,12 @@ func MarshalGeo(geom geo.Geometry) ([]byte, error) {
 }
 
 func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
+	if gjson == nil {
+		return nil, errors.New("no geometry")
+	}
+	if err := checkCoordinates(gjson); err != nil {
+		return nil, err
+	}
 	switch gjson.Type {
 	case "Point":
 		isZ := isInterPointZ(gjson.Coordinates)
@@ -124,7 +130,42 @@ func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
 	case "MultiPolygon":
 		return nil, errors.New("Not Support MultiPolygon (TODO)")
 	}
-	return nil, nil
+	return nil, errors.New("no such type")
+}
+
+// checkCoordinates reports coordinates that do not have the nesting and the
+// dimensions of the geometry type they belong to.
+func checkCoordinates(gjson *GeoJson) error {
+	var err error
+	var paths [][][]float64
+	switch gjson.Type {
+	case "Point":
+		var point []float64
+		point, err = decodePosition(gjson.Coordinates)
+		paths = [][][]float64{{point}}
+	case "LineString":
+		var line [][]float64
+		line, err = decodePositionSet(gjson.Coordinates)
+		paths = [][][]float64{line}
+	case "Polygon":
+		paths, err = decodePathSet(gjson.Coordinates)
+	}
+	if err != nil {
+		return err
+	}
+	size := 0
+	for _, path := range paths {
+		for _, position := range path {
+			if len(position) < 2 {
+				return fmt.Errorf("not a valid position, got %v", position)
+			}
+			if size != 0 && size != len(position) {
+				return errors.New("positions of different dimensions")
+			}
+			size = len(position)
+		}
+	}
+	return nil
 }
 
 // func (c Collection) ToGeojson() ([]byte, error) {
-- 
2.43.0


From 41def5d73579edcb27acd844967bd90cd78eae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:33 +0000
Subject: [PATCH 29/33] fix: WKT positions with too few coordinates are
 reported instead of panicking

---
 wkt/decode.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wkt/decode.go b/wkt/decode.go
index 4b0ad79..ffbf5ab 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -11,6 +11,9 @@ import (
 
 func PointFromWKT(wkt string) (geo.Geometry, error) {
 	strs := strings.Split(strings.Trim(wkt, " "), " ")
+	if len(strs) < 2 {
+		return geo.Point{}, errors.New("position needs two coordinates")
+	}
 	x, err := strconv.ParseFloat(strs[0], 64)
 	if err != nil {
 		return geo.Point{}, err
@@ -38,6 +41,9 @@ func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
 	var mpz geo.MultiPointZ
 	for _, term := range terms {
 		strs := strings.Split(strings.TrimRight(strings.TrimLeft(term, "("), ")"), " ")
+		if len(strs) < 2 {
+			return nil, errors.New("position needs two coordinates")
+		}
 		x, err := strconv.ParseFloat(strs[0], 64)
 		if err != nil {
 			return nil, err
@@ -73,6 +79,9 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 	var linestringZ geo.LineStringZ
 	for _, term := range terms {
 		strs := strings.Split(strings.Trim(term, " "), " ")
+		if len(strs) < 2 {
+			return nil, errors.New("position needs two coordinates")
+		}
 		x, err := strconv.ParseFloat(strs[0], 64)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 8c2fc426cc64947c8ea6beaedf717ada28bba9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 30/33] fix: WKT polygons and multi geometries lost every part
 but the first

---
 wkt/decode.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wkt/decode.go b/wkt/decode.go
index ffbf5ab..5719eb9 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -111,8 +111,8 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`(\ *[(]\ *(?:\ *(?:[0-9-.Ee]+[ ]+[0-9-.Ee]+)[, ]*\ *)*\ *[)])[, ]*`)
-	matches := re.FindStringSubmatch(wkt)
+	re := regexp.MustCompile(`[(][^()]*[)]`)
+	matches := re.FindAllString(wkt, -1)
 	var ml geo.MultiLineString
 	var mlz geo.MultiLineStringZ
 	for _, v := range matches {
@@ -138,8 +138,8 @@ func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func PolygonFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`(\ *[(]\ *(?:\ *(?:[0-9-.Ee]+[ ]+[0-9-.Ee]+)[, ]*\ *)*\ *[)])[, ]*`)
-	matches := re.FindStringSubmatch(wkt)
+	re := regexp.MustCompile(`[(][^()]*[)]`)
+	matches := re.FindAllString(wkt, -1)
 	var poly geo.Polygon
 	var polyz geo.PolygonZ
 	for _, v := range matches {
@@ -165,8 +165,8 @@ func PolygonFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`([(](?:\ *[(]\ *(?:\ *(?:[0-9-.]+[ ]+[0-9-.]+)[, ]*\ *)*\ *[)][, ]*)*[)])`)
-	matches := re.FindStringSubmatch(wkt)
+	re := regexp.MustCompile(`[(]\s*(?:[(][^()]*[)][, ]*)+[)]`)
+	matches := re.FindAllString(wkt, -1)
 	var multiPoly geo.MultiPolygon
 	var multiPolyZ geo.MultiPolygonZ
 	for _, v := range matches {
-- 
2.43.0


From 32779da9e70516566ad4671559e9d4797fffe0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:10 +0000
Subject: [PATCH 31/33] fix: deleting every object could leave the R-tree with
 an empty inner root, and the next insert panicked

---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 47ece55..95de519 100644
--- a/rtree.go
+++ b/rtree.go
@@ -600,7 +600,7 @@ func (tree *Rtree) DeleteWithComparator(obj Spatial, cond Condition) bool {
 	tree.condenseTree(n)
 	tree.size--
 
-	if !tree.root.leaf && len(tree.root.entries) == 1 {
+	for !tree.root.leaf && len(tree.root.entries) == 1 {
 		tree.root = tree.root.entries[0].child
 	}
 
-- 
2.43.0


From 5aa15a0f22179e2d43e0d59d58caaaa3b6b0fe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 32/33] fix: covering an empty polygon with S2 cells panicked

---
 googleS2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/googleS2.go b/googleS2.go
index a481308..f84795b 100644
--- a/googleS2.go
+++ b/googleS2.go
@@ -49,6 +49,9 @@ func S2GetAllNeighbors(cellID uint64, srid SRID) []uint64 {
 }
 
 func S2RegionCoverer(poly Polygon, level int, srid SRID) []uint64 {
+	if len(poly.GetExteriorRing()) == 0 {
+		return nil
+	}
 	if poly.IsCCW() {
 		pois := append([]Point{}, poly.GetExteriorRing().GetPointSet()...)
 		for i, j := 0, len(pois)-1; i < j; i, j = i+1, j-1 {
-- 
2.43.0


From 70d2302f976b726fa741d4ebbec2e1c2b5d4ac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 33/33] fix: ConvexHull kept points inside the hull when points
 were given twice, and could pop its whole stack

---
 convexhull.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/convexhull.go b/convexhull.go
index 670e23d..9e7d29b 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -62,19 +62,18 @@ func ConvexHull(pts ...Point) Polygon {
 	points.FindLowestPoint()
 	sort.Sort(hullOrder{points[1:], points[0]})
 	stack = append(stack, points[0])
-	stack = append(stack, points[1])
-	i := 2
+	i := 1
 	for i < len(points) {
 		pi := points[i]
+		n := len(stack)
 
-		p1 := stack[len(stack)-2]
-		p2 := stack[len(stack)-1]
-
-		if isLeft(p1, p2, pi) {
+		if pi == stack[n-1] {
+			i++
+		} else if n < 2 || isLeft(stack[n-2], stack[n-1], pi) {
 			stack = append(stack, pi)
 			i++
 		} else {
-			stack = stack[:len(stack)-1]
+			stack = stack[:n-1]
 		}
 	}
 	if len(stack) < 3 {
-- 
2.43.0

