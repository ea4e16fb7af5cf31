From 78efa5f23cea2b5cbb017c1e06da119382adb11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 01/59] fix: IsPointOnSegment boxed a *LineString, so only the
 origin was ever on a segment

---
 relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index 6657564..8a1f446 100644
--- a/relation.go
+++ b/relation.go
@@ -113,7 +113,7 @@ func IsPointOnLine(point Point, line LineString) bool {
 func IsPointOnSegment(p1, p2, point Point) bool {
 	//保证Q点坐标在p1,p2之间 且叉积为0
 	if (point.X-p1.X)*(p2.Y-p1.Y) == (p2.X-p1.X)*(point.Y-p1.Y) &&
-		IsPointInBox(BoundingBox(NewLineString(p1, p2)), point) {
+		IsPointInBox(BoundingBox(*NewLineString(p1, p2)), point) {
 		return true
 	}
 	return false
-- 
2.43.0


From 42095187dfc65b6ebf0a42772cf715b5d29c25e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 02/59] fix: bulk-loaded leaves shared one array, inserting
 overwrote entries of the next leaf

---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 0282fce..a797335 100644
--- a/rtree.go
+++ b/rtree.go
@@ -188,7 +188,7 @@ func (tree *Rtree) omt(level, nSlices int, objs []entry, m int) *node {
 		}
 		return &node{
 			leaf:    true,
-			entries: objs,
+			entries: objs[:len(objs):len(objs)],
 			level:   level,
 		}
 	}
-- 
2.43.0


From 45c0b5177b63b368bc8c52e8e8821eefbe80ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 03/59] fix: Rtree.Delete panicked on geometries that are
 slices

---
 rtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index a797335..955f3cb 100644
--- a/rtree.go
+++ b/rtree.go
@@ -3,6 +3,7 @@ package geo
 import (
 	"fmt"
 	"math"
+	"reflect"
 	"sort"
 	"time"
 )
@@ -530,7 +531,7 @@ func (tree *Rtree) Delete(obj Spatial) bool {
 		if len(object) != 2 {
 			return false
 		}
-		return object[0] == object[1]
+		return reflect.DeepEqual(object[0], object[1])
 	}
 	return tree.DeleteWithComparator(obj, condition)
 }
-- 
2.43.0


From 0c3906b8622589336c347e6536b106f956b4b4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:47 +0000
Subject: [PATCH 04/59] fix: DeleteBySpatialID left objects behind when several
 share the id

---
 rtree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 955f3cb..c57c5bf 100644
--- a/rtree.go
+++ b/rtree.go
@@ -541,7 +541,9 @@ func (tree *Rtree) DeleteBySpatialID(id string) bool {
 		if len(object) != 2 {
 			return false
 		}
-		return object[0].ID == object[1].ID
+		// the box keeps a namesake in the same leaf from being removed instead,
+		// which would leave this one behind
+		return object[0].ID == object[1].ID && *BoundingBox(object[0].Geom) == *BoundingBox(object[1].Geom)
 	}
 	sps := tree.SearchBySpatialID(id)
 	if len(sps) == 0 {
-- 
2.43.0


From 00826de252f6499a2dcb62f282cb6762aa32de76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:47 +0000
Subject: [PATCH 05/59] fix: draining an index left a root without children,
 the next insert crashed

---
 rtree.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rtree.go b/rtree.go
index c57c5bf..76f642d 100644
--- a/rtree.go
+++ b/rtree.go
@@ -602,9 +602,12 @@ func (tree *Rtree) DeleteWithComparator(obj Spatial, cond Condition) bool {
 	tree.condenseTree(n)
 	tree.size--
 
-	if !tree.root.leaf && len(tree.root.entries) == 1 {
+	for !tree.root.leaf && len(tree.root.entries) == 1 {
 		tree.root = tree.root.entries[0].child
 	}
+	if len(tree.root.entries) == 0 {
+		tree.root = &node{entries: []entry{}, leaf: true, level: 1}
+	}
 
 	tree.height = tree.root.level
 
@@ -663,7 +666,9 @@ func (tree *Rtree) condenseTree(n *node) {
 		n = n.parent
 	}
 
-	for _, n := range deleted {
+	// highest level first: the root may have been left without any other child
+	for i := len(deleted) - 1; i >= 0; i-- {
+		n := deleted[i]
 		// reinsert entry so that it will remain at the same level as before
 		e := entry{n.computeBoundingBox(), n, Spatial{}}
 		tree.insert(e, n.level+1)
-- 
2.43.0


From f1d8728808a8fdf0fecd93fd874f09771e8de2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 06/59] fix: InsertWithRandomId put a function value instead of
 the size into the id

---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 76f642d..b2490a5 100644
--- a/rtree.go
+++ b/rtree.go
@@ -270,7 +270,7 @@ func (tree *Rtree) Insert(obj Spatial) {
 
 // 插入rtree
 func (tree *Rtree) InsertWithRandomId(geom Geometry) {
-	e := entry{BoundingBox(geom), nil, Spatial{fmt.Sprintf("%d_1_%d", time.Now().UnixNano(), tree.Size), nil, geom}}
+	e := entry{BoundingBox(geom), nil, Spatial{fmt.Sprintf("%d_1_%d", time.Now().UnixNano(), tree.size), nil, geom}}
 	tree.insert(e, 1)
 	tree.size++
 }
-- 
2.43.0


From 071ac97562d79426121f7b970c2e2f6c7de78548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 07/59] fix: InsertPoint at the end of a line inserted the
 point twice

---
 lineString.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineString.go b/lineString.go
index 2d673f9..f1d3a4a 100644
--- a/lineString.go
+++ b/lineString.go
@@ -83,7 +83,7 @@ func (line *LineString) InsertPoint(position int, point Point) error {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
-		line.Append(point)
+		return line.Append(point)
 	}
 	*line = append((*line)[:position+1], (*line)[position:]...)
 	(*line)[position] = point
-- 
2.43.0


From c068388456e6e7dcf57e06152863449263da9ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 08/59] fix: negative positions on a line crashed instead of
 being refused

---
 lineString.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lineString.go b/lineString.go
index f1d3a4a..e31d4c8 100644
--- a/lineString.go
+++ b/lineString.go
@@ -54,7 +54,7 @@ func (line LineString) GetEndPoint() *Point {
 
 //取特定点
 func (line LineString) GetPoint(index int) *Point {
-	if index > line.GetPointCount()-1 {
+	if index < 0 || index > line.GetPointCount()-1 {
 		return nil
 	}
 	return &line[index]
@@ -67,7 +67,7 @@ func (line *LineString) Append(point Point) error {
 
 //在指定位置改变linestring的点
 func (line *LineString) SetPoint(position int, point Point) error {
-	if line.GetPointCount() < position {
+	if position < 0 || line.GetPointCount() < position {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
@@ -79,7 +79,7 @@ func (line *LineString) SetPoint(position int, point Point) error {
 
 //在指定位置插入点
 func (line *LineString) InsertPoint(position int, point Point) error {
-	if line.GetPointCount() < position {
+	if position < 0 || line.GetPointCount() < position {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
@@ -92,7 +92,7 @@ func (line *LineString) InsertPoint(position int, point Point) error {
 
 //在指定位置删除点
 func (line *LineString) DelPoint(position int) error {
-	if line.GetPointCount() <= position {
+	if position < 0 || line.GetPointCount() <= position {
 		return errors.New("line has no such position")
 	}
 	(*line) = append((*line)[:position], (*line)[position+1:]...)
-- 
2.43.0


From 1afabda80b4fe4d6049087d5b1ec2f675ff31095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 09/59] fix: Equal on lines of different length crashed or
 compared a prefix only

---
 lineString.go  | 3 +++
 lineStringZ.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lineString.go b/lineString.go
index e31d4c8..4dd2b4e 100644
--- a/lineString.go
+++ b/lineString.go
@@ -109,6 +109,9 @@ func (line LineString) Length() float64 {
 
 //判断两条线是不是相同
 func (line1 LineString) Equal(line2 LineString) bool {
+	if line1.GetPointCount() != line2.GetPointCount() {
+		return false
+	}
 	for i := 0; i < line1.GetPointCount(); i++ {
 		if !line1[i].Equal(line2[i]) {
 			return false
diff --git a/lineStringZ.go b/lineStringZ.go
index dad543b..e0c1b8a 100644
--- a/lineStringZ.go
+++ b/lineStringZ.go
@@ -38,6 +38,9 @@ func (line *LineStringZ) Append(point PointZ) error {
 
 //判断两条线是不是相同
 func (line1 LineStringZ) Equal(line2 LineStringZ) bool {
+	if line1.GetPointCount() != line2.GetPointCount() {
+		return false
+	}
 	for i := 0; i < line1.GetPointCount(); i++ {
 		if !line1[i].Equal(line2[i]) {
 			return false
-- 
2.43.0


From 2afc04faebed5bcd4ee2b8bb830045d68f7ca813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 10/59] fix: rings and split halves shared the array of their
 line, editing one changed the other

---
 lineString.go  | 4 ++--
 linearRing.go  | 2 ++
 linearRingZ.go | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lineString.go b/lineString.go
index 4dd2b4e..d8e2a46 100644
--- a/lineString.go
+++ b/lineString.go
@@ -138,7 +138,7 @@ func (line LineString) GetPointSet() []Point {
 
 //从指定位置分成两条线
 func (line LineString) SplitByIndex(index int) (LineString, LineString) {
-	line1 := line[:index+1]
-	line2 := line[index:]
+	line1 := append(LineString{}, line[:index+1]...)
+	line2 := append(LineString{}, line[index:]...)
 	return line1, line2
 }
diff --git a/linearRing.go b/linearRing.go
index 6751f00..418ca60 100644
--- a/linearRing.go
+++ b/linearRing.go
@@ -16,6 +16,8 @@ func NewRingFromLine(line LineString) *LinearRing {
 	if err != nil {
 		return nil
 	}
+	//the ring gets its own points, closing it must not write into the array of the line
+	line = append(LineString{}, line...)
 	firstPoint := line[0]
 	endPoint := line[len(line)-1]
 	if firstPoint.Equal(endPoint) {
diff --git a/linearRingZ.go b/linearRingZ.go
index f1575f0..83e22ba 100644
--- a/linearRingZ.go
+++ b/linearRingZ.go
@@ -12,6 +12,8 @@ func NewLinearRingZ(point ...PointZ) *LinearRingZ {
 }
 
 func NewRingFromLineZ(line LineStringZ) *LinearRingZ {
+	//the ring gets its own points, closing it must not write into the array of the line
+	line = append(LineStringZ{}, line...)
 	firstPoint := line[0]
 	endPoint := line[len(line)-1]
 	if firstPoint.Equal(endPoint) {
-- 
2.43.0


From b8d9ce3770ba79a0fef9b4691d59a4ad84eb44bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 11/59] fix: ConvexHull reordered the caller's points and
 sorted more than twelve of them wrongly

---
 convexhull.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/convexhull.go b/convexhull.go
index 7ef65da..0d1417b 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -16,12 +16,21 @@ func (p hullPts) Swap(i, j int) {
 	p[i], p[j] = p[j], p[i]
 }
 
-func (p hullPts) Less(i, j int) bool {
-	area := Area2(p[0], p[i], p[j])
+type hullOrder struct {
+	hullPts
+	origin Point
+}
+
+func (p hullOrder) Less(i, j int) bool {
+	return p.hullPts.less(p.origin, i, j)
+}
+
+func (p hullPts) less(origin Point, i, j int) bool {
+	area := Area2(origin, p[i], p[j])
 
 	if area == 0 {
-		x := math.Abs(p[i].X-p[0].X) - math.Abs(p[j].X-p[0].X)
-		y := math.Abs(p[i].Y-p[0].Y) - math.Abs(p[j].Y-p[0].Y)
+		x := math.Abs(p[i].X-origin.X) - math.Abs(p[j].X-origin.X)
+		y := math.Abs(p[i].Y-origin.Y) - math.Abs(p[j].Y-origin.Y)
 
 		if x < 0 || y < 0 {
 			return true
@@ -50,10 +59,12 @@ func ConvexHull(pts ...Point) Polygon {
 	if len(pts) < 3 {
 		return nil
 	}
-	points := hullPts(pts)
+	//sort a copy, the caller keeps its order
+	points := append(hullPts{}, pts...)
 	var stack hullPts
 	points.FindLowestPoint()
-	sort.Sort(&points)
+	//Less measures from p[0], so p[0] itself must not move while sorting
+	sort.Sort(hullOrder{points[1:], points[0]})
 	stack = append(stack, points[0])
 	stack = append(stack, points[1])
 	i := 2
-- 
2.43.0


From 5d7b2d8f92b4d4d9e76ae73cd52bdf1c71cbd268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 12/59] fix: ConvexHull kept inner points that occur more than
 once

---
 convexhull.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/convexhull.go b/convexhull.go
index 0d1417b..f6449b5 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -74,6 +74,11 @@ func ConvexHull(pts ...Point) Polygon {
 		p1 := stack[len(stack)-2]
 		p2 := stack[len(stack)-1]
 
+		//a repeated point would stop the turn test from removing p2
+		if pi == p2 {
+			i++
+			continue
+		}
 		if isLeft(p1, p2, pi) {
 			stack = append(stack, pi)
 			i++
-- 
2.43.0


From 0949c6da57cf95de86cd4fc36e92ab19e43a7ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 13/59] fix: BoxToGeo returned an unclosed ring, its area came
 out as half the box

---
 box.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box.go b/box.go
index 1ba1f53..37ae51c 100644
--- a/box.go
+++ b/box.go
@@ -43,7 +43,7 @@ func BoxToGeo(b Box) Geometry {
 		//元素是条线 x坐标不同
 		return LineString{p1, p2}
 	}
-	return *NewPolygon(LinearRing{p1, p2, p3, p4})
+	return *NewPolygon(LinearRing{p1, p2, p3, p4, p1})
 }
 
 func calBox(points ...Point) *Box {
-- 
2.43.0


From dee4e608362b1ef3334e1b1a7bb610ff1db9f646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 14/59] fix: Mbr tried the edges of the input order instead of
 the hull, missing the smallest rectangle

---
 mbr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbr.go b/mbr.go
index 9219884..40d8814 100644
--- a/mbr.go
+++ b/mbr.go
@@ -30,6 +30,8 @@ func Mbr(geom Geometry) Polygon {
 	if math.IsNaN(cpt.X) || math.IsNaN(cpt.Y) {
 		return nil
 	}
+	//the smallest rectangle has a side along an edge of the hull
+	coords = convexHull.GetExteriorRing()
 	minArea := math.MaxFloat64
 	minAngle := 0.0
 	ci := coords[0]
-- 
2.43.0


From ed4bde895bd1542fae8d264e327dee6c7f31ba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 15/59] fix: DouglasPeuckerSimplify overwrote the caller's line

---
 simplify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simplify.go b/simplify.go
index 95a300a..aaa1304 100644
--- a/simplify.go
+++ b/simplify.go
@@ -11,6 +11,8 @@ func DouglasPeuckerSimplify(line LineString, threshold float64, srid SRID) LineS
 	//排序，从后往前删
 	sort.Sort(sort.Reverse(sort.IntSlice(delIndexs)))
 
+	//delete from a copy, the caller keeps its line
+	line = append(LineString{}, line...)
 	for _, v := range delIndexs {
 		line = append(line[:v], line[v+1:]...)
 	}
-- 
2.43.0


From 1bdb2883a1509336ccceb0694a377b3acc820764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 16/59] fix: the distance to a zero-length segment was NaN, so
 simplifying a closed line dropped everything

---
 calcaulation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calcaulation.go b/calcaulation.go
index 1fc39e7..60f4c52 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -132,7 +132,7 @@ func PointToSegmentDistance(point, p1, p2 Point, srid SRID) (float64, Point) {
 	var u float64 = ((point.X-p1.X)*xDelta + (point.Y-p1.Y)*yDelta) / (xDelta*xDelta + yDelta*yDelta)
 
 	var closestPointOnLine Point
-	if u < 0 {
+	if u < 0 || p1 == p2 {
 		closestPointOnLine = p1
 	} else if u > 1 {
 		closestPointOnLine = p2
-- 
2.43.0


From fb4494b66d6358dfe2776843796b6f162606bc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 17/59] fix: S2RegionCoverer reversed the caller's polygon

---
 googleS2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/googleS2.go b/googleS2.go
index 25499ff..a481308 100644
--- a/googleS2.go
+++ b/googleS2.go
@@ -50,7 +50,7 @@ func S2GetAllNeighbors(cellID uint64, srid SRID) []uint64 {
 
 func S2RegionCoverer(poly Polygon, level int, srid SRID) []uint64 {
 	if poly.IsCCW() {
-		pois := poly.GetExteriorRing().GetPointSet()
+		pois := append([]Point{}, poly.GetExteriorRing().GetPointSet()...)
 		for i, j := 0, len(pois)-1; i < j; i, j = i+1, j-1 {
 			pois[i], pois[j] = pois[j], pois[i]
 		}
-- 
2.43.0


From 349b249df55d981730fc4288085ef64ab9b35386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 18/59] fix: SelfIntersect never looked at the closing edge

---
 polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polygon.go b/polygon.go
index 273e699..388a4fe 100644
--- a/polygon.go
+++ b/polygon.go
@@ -85,7 +85,7 @@ func (poly Polygon) SelfIntersect() bool {
 	for i := 0; i < pointCount-1; i++ {
 		srcV0 := exRing[i]
 		srcV1 := exRing[(i+1)%pointCount]
-		for j := i + 1; j < pointCount-2; j++ {
+		for j := i + 1; j < pointCount-1; j++ {
 			dstV0 := exRing[j]
 			dstV1 := exRing[j+1]
 			relation := SegmentRelation(LineSegment{srcV0, srcV1}, LineSegment{dstV0, dstV1})
-- 
2.43.0


From 585a1eee5459938fb64b1b4053cfa76e6f06fd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:04 +0000
Subject: [PATCH 19/59] fix: Polygon.Verify checked longitude against the
 latitude range and the reverse (x is longitude)

---
 polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polygon.go b/polygon.go
index 388a4fe..00ca895 100644
--- a/polygon.go
+++ b/polygon.go
@@ -65,7 +65,7 @@ func (p *Polygon) Verify() error {
 		return errors.New("polygon invaild, point less than 3")
 	}
 	for i := 0; i < ptCount; i++ {
-		if extring[i].X > 90.0 || extring[i].X < -90 || extring[i].Y > 180.0 || extring[i].Y < -180.0 {
+		if extring[i].Y > 90.0 || extring[i].Y < -90 || extring[i].X > 180.0 || extring[i].X < -180.0 {
 			return errors.New("lnglat invaild, lat[-90,90] lng[-180,180]")
 		}
 	}
-- 
2.43.0


From fa86f086c047aba2627e7e34bf259be995da5bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:04 +0000
Subject: [PATCH 20/59] fix: EuclideanDisZ ignored its second point

---
 pointZ.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointZ.go b/pointZ.go
index 46ff89b..8884a55 100644
--- a/pointZ.go
+++ b/pointZ.go
@@ -27,7 +27,7 @@ func (p *PointZ) SetZ(z float64) {
 }
 
 func EuclideanDisZ(p1, p2 PointZ) float64 {
-	return math.Sqrt(p1.X*p1.X + p1.Y*p1.Y + p1.Z*p1.Z)
+	return math.Sqrt((p1.X-p2.X)*(p1.X-p2.X) + (p1.Y-p2.Y)*(p1.Y-p2.Y) + (p1.Z-p2.Z)*(p1.Z-p2.Z))
 }
 
 //判断元素是否相等
-- 
2.43.0


From f5063d4aca27840d254519d3ea3db4dea4bc62ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:04 +0000
Subject: [PATCH 21/59] fix: SetSrid crashed on the nil map

---
 srid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srid.go b/srid.go
index 2ce468a..ee3df19 100644
--- a/srid.go
+++ b/srid.go
@@ -1,3 +1,3 @@
 package geo
 
-var SridMap map[interface{}]uint64
+var SridMap = map[interface{}]uint64{}
-- 
2.43.0


From 94bb3dc951c3909f85e8b3c54eda1fe75fd4a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:04 +0000
Subject: [PATCH 22/59] fix: Feature.SetBoundingBox set the box on a copy

---
 geojson/feature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geojson/feature.go b/geojson/feature.go
index faac598..b8be919 100644
--- a/geojson/feature.go
+++ b/geojson/feature.go
@@ -29,7 +29,7 @@ func NewFeature(geometry geo.Geometry) *Feature {
 	}
 }
 
-func (f Feature) SetBoundingBox() {
+func (f *Feature) SetBoundingBox() {
 	box := geo.BoundingBox(f.Geometry)
 	f.BoundingBox = []float64{box.MinX, box.MinY, box.MaxX, box.MaxY}
 }
-- 
2.43.0


From 88bd7767c7a9cb50de8c2c185f57dc6c4695ed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:04 +0000
Subject: [PATCH 23/59] fix: 3-D polygons could not be encoded as GeoJSON

---
 geojson/geojson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geojson/geojson.go b/geojson/geojson.go
index 9005eb7..ef60a8a 100644
--- a/geojson/geojson.go
+++ b/geojson/geojson.go
@@ -75,7 +75,7 @@ func MarshalGeo(geom geo.Geometry) ([]byte, error) {
 		}
 	case geo.PolygonZ:
 		geoj.Type = "Polygon"
-		geoj.Coordinates, err = ConvertPathSet(geom)
+		geoj.Coordinates, err = ConvertPathZSet(geom)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 555e83485331d947112bf1e0f8ac86de43e9da3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 24/59] fix: collinear segments that are apart were reported as
 touching

---
 relation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/relation.go b/relation.go
index 8a1f446..ac6f122 100644
--- a/relation.go
+++ b/relation.go
@@ -9,6 +9,10 @@ func SegmentRelation(seg1, seg2 LineSegment) GeometryRealation {
 	crss1 := r.Cross(*s)
 	crss2 := q_p.Cross(*r)
 	if crss1 == 0 && crss2 == 0 {
+		//on one line, but not necessarily meeting
+		if q_p.Cross(*s) != 0 || !BoundingBox(LineString{seg1.Start, seg1.End}).Intersect(BoundingBox(LineString{seg2.Start, seg2.End})) {
+			return RELA_DISJOINT
+		}
 		return RELA_TOUCH
 	} else if crss1 == 0 && crss2 != 0 {
 		return RELA_DISJOINT
-- 
2.43.0


From 4a89225b3490eab2c836a8d1302b7e7341237566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 25/59] fix: segments meeting in a T were reported as disjoint

---
 relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index ac6f122..ced3934 100644
--- a/relation.go
+++ b/relation.go
@@ -23,7 +23,7 @@ func SegmentRelation(seg1, seg2 LineSegment) GeometryRealation {
 		if res1 > 0 && res1 < 1 && res2 > 0 && res2 < 1 {
 			return RELA_INTERSECT
 		}
-		if (res1 == 0 || res1 == 1) && (res2 == 0 || res2 == 1) {
+		if res1 >= 0 && res1 <= 1 && res2 >= 0 && res2 <= 1 {
 			return RELA_TOUCH
 		}
 	}
-- 
2.43.0


From 0f04265c14d1550963a76e899bdf814f2a45617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 26/59] fix: IsPointOnLine counted the chord between the ends
 of an open line

---
 relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index ced3934..29380bf 100644
--- a/relation.go
+++ b/relation.go
@@ -103,7 +103,7 @@ func IsPointOnLine(point Point, line LineString) bool {
 	isOn := false
 	for i := range line {
 		if i == line.GetPointCount()-1 {
-			isOn = IsPointOnSegment(line[0], line[line.GetPointCount()-1], point)
+			isOn = IsPointOnSegment(line[i], line[i], point)
 		} else {
 			isOn = IsPointOnSegment(line[i], line[i+1], point)
 		}
-- 
2.43.0


From f3736f4b3078b7e9e9f5873f3355b6745753dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 27/59] fix: relations to a polygon left out the closing edge
 of either ring

---
 relation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relation.go b/relation.go
index 29380bf..e269eb4 100644
--- a/relation.go
+++ b/relation.go
@@ -34,7 +34,7 @@ func SegPolyRelation(seg LineSegment, poly Polygon) GeometryRealation {
 	lr := poly.GetExteriorRing()
 	pointCount := lr.GetPointCount()
 	isPointOnBoundary := false
-	for i := 0; i < pointCount-2; i++ {
+	for i := 0; i < pointCount-1; i++ {
 		pntStart := lr[i]
 		pntEnd := lr[i+1]
 		relation := SegmentRelation(LineSegment{pntStart, pntEnd}, seg)
@@ -80,7 +80,7 @@ func LinearPolyRelation(line LinearRing, poly Polygon) GeometryRealation {
 	//对环进行打断，去掉最后一个点
 	pointCount := line.GetPointCount()
 	curRelation := RELA_UNKNOWN
-	for i := 0; i < pointCount-2; i++ {
+	for i := 0; i < pointCount-1; i++ {
 		Start := line[i]
 		End := line[i+1]
 		relation := SegPolyRelation(LineSegment{Start, End}, poly)
-- 
2.43.0


From 86149fe1bce4358aeb5c35ed468f74286dce51d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 28/59] fix: a line passing a polygon's vertex was reported as
 contained or disjoint by its last part

---
 relation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relation.go b/relation.go
index e269eb4..327cc05 100644
--- a/relation.go
+++ b/relation.go
@@ -69,7 +69,7 @@ func LinePolyRelation(line LineString, poly Polygon) GeometryRealation {
 		if relation == RELA_INTERSECT {
 			return RELA_INTERSECT
 		}
-		if curRelation == RELA_UNKNOWN || curRelation == RELA_CONTAIN || curRelation == RELA_DISJOINT {
+		if i == 0 || curRelation == RELA_CONTAIN || curRelation == RELA_DISJOINT {
 			curRelation = relation
 		}
 	}
@@ -87,7 +87,7 @@ func LinearPolyRelation(line LinearRing, poly Polygon) GeometryRealation {
 		if relation == RELA_INTERSECT {
 			return RELA_INTERSECT
 		}
-		if curRelation == RELA_UNKNOWN || curRelation == RELA_CONTAIN || curRelation == RELA_DISJOINT {
+		if i == 0 || curRelation == RELA_CONTAIN || curRelation == RELA_DISJOINT {
 			curRelation = relation
 		}
 	}
-- 
2.43.0


From c2f4686e50b779320581ee1224aa4525545a8ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 29/59] fix: IsPointInPolygon reported points inside a hole as
 contained

---
 contain.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/contain.go b/contain.go
index 6eb0d0f..edc22fb 100644
--- a/contain.go
+++ b/contain.go
@@ -34,6 +34,15 @@ func IsPointInPolygon(point Point, poly Polygon) GeometryRealation {
 		}
 	}
 	if isIn {
+		//在洞内的点不在多边形内
+		for _, hole := range poly.GetInteriorRing() {
+			switch IsPointInPolygon(point, Polygon{hole}) {
+			case RELA_TOUCH:
+				return RELA_TOUCH
+			case RELA_CONTAIN:
+				return RELA_DISJOINT
+			}
+		}
 		return RELA_CONTAIN
 	} else {
 		return RELA_DISJOINT
-- 
2.43.0


From ddfe08839fa7ad843cefda9664fd1507d71123f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 30/59] fix: relations to a polygon ignored the edges of its
 holes

---
 relation.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/relation.go b/relation.go
index 327cc05..8e5963e 100644
--- a/relation.go
+++ b/relation.go
@@ -44,6 +44,14 @@ func SegPolyRelation(seg LineSegment, poly Polygon) GeometryRealation {
 			isPointOnBoundary = true
 		}
 	}
+	for _, hole := range poly.GetInteriorRing() {
+		switch SegPolyRelation(seg, Polygon{hole}) {
+		case RELA_INTERSECT:
+			return RELA_INTERSECT
+		case RELA_TOUCH, RELA_COVER, RELA_UNKNOWN:
+			isPointOnBoundary = true
+		}
+	}
 	flag1 := IsPointInPolygon(seg.Start, poly) == RELA_CONTAIN || IsPointInPolygon(seg.Start, poly) == RELA_TOUCH
 	flag2 := IsPointInPolygon(seg.End, poly) == RELA_CONTAIN || IsPointInPolygon(seg.End, poly) == RELA_TOUCH
 	//最后判断线段的首尾点在不在多边形内
-- 
2.43.0


From 50329e689d270bb7bacc66061716f4acf7e8c0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 31/59] fix: polygon areas included the holes

---
 calcaulation.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calcaulation.go b/calcaulation.go
index 60f4c52..6de841e 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -63,7 +63,11 @@ func relativeArea(poly Polygon) float64 {
 }
 
 func polyArea(poly Polygon) float64 {
-	return math.Abs(relativeArea(poly))
+	area := math.Abs(relativeArea(poly))
+	for _, hole := range poly.GetInteriorRing() {
+		area -= math.Abs(relativeArea(Polygon{hole}))
+	}
+	return area
 }
 
 func MultiPolyArea(multiPoly MultiPolygon) float64 {
-- 
2.43.0


From 4cfcd48682a751e509ffe5d7ce5a69c59e05b91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 32/59] fix: polygon centroids ignored the holes

---
 calcaulation.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/calcaulation.go b/calcaulation.go
index 6de841e..12c53d0 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -211,6 +211,20 @@ func polyCentroid(poly Polygon) Point {
 	}
 	centroidX *= 1 / (6 * signArea / 2)
 	centroidY *= 1 / (6 * signArea / 2)
+	if holes := poly.GetInteriorRing(); len(holes) > 0 {
+		area := polyArea(Polygon{lr})
+		centroidX, centroidY = centroidX*area, centroidY*area
+		for _, hole := range holes {
+			holeArea := polyArea(Polygon{hole})
+			if holeArea == 0 {
+				continue
+			}
+			c := polyCentroid(Polygon{hole})
+			centroidX, centroidY = centroidX-c.X*holeArea, centroidY-c.Y*holeArea
+			area -= holeArea
+		}
+		return Point{centroidX / area, centroidY / area}
+	}
 	return Point{centroidX, centroidY}
 }
 
-- 
2.43.0


From 02035c5b9ee0fa98026275d6421d09df325245e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 33/59] fix: the distance from a point in a hole ignored the
 hole's edge

---
 calcaulation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/calcaulation.go b/calcaulation.go
index 12c53d0..a1224cf 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -247,6 +247,11 @@ func PointPolygonDistance(p Point, poly Polygon, srid SRID) float64 {
 			distance = segmentDistance
 		}
 	}
+	for _, hole := range poly.GetInteriorRing() {
+		if _, _, holeDistance := PointHitLineString(p, hole.ToLineString(), srid); holeDistance < distance {
+			distance = holeDistance
+		}
+	}
 	return distance
 }
 
-- 
2.43.0


From 220b604f6c103821a2b9882feaacdea71555734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 34/59] fix: bounding boxes of coordinates beyond 2^31 were
 stretched to 2^31

---
 box.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/box.go b/box.go
index 37ae51c..9f1cac7 100644
--- a/box.go
+++ b/box.go
@@ -48,6 +48,9 @@ func BoxToGeo(b Box) Geometry {
 
 func calBox(points ...Point) *Box {
 	var minX, minY, maxX, maxY float64 = INF, INF, -INF, -INF
+	if len(points) > 0 {
+		minX, minY, maxX, maxY = math.MaxFloat64, math.MaxFloat64, -math.MaxFloat64, -math.MaxFloat64
+	}
 	for _, v := range points {
 		if minX > v.X {
 			minX = v.X
-- 
2.43.0


From 118dd6c3509896fede76d3d1fef0eb2c5628f467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 35/59] fix: longitude 180 was put into the non-existent UTM
 zone 61

---
 utm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utm.go b/utm.go
index 30233e8..e4a477b 100755
--- a/utm.go
+++ b/utm.go
@@ -188,6 +188,11 @@ func FromLatLon(latitude, longitude float64, northern bool) (easting, northing f
 		return
 	}
 
+	// the antimeridian belongs to zone 1, there is no zone 61
+	if longitude == 180 {
+		longitude = -180
+	}
+
 	latRad := rad(latitude)
 	latSin := math.Sin(latRad)
 	latCos := math.Cos(latRad)
-- 
2.43.0


From ee76d8364d7e53466e7cc7606a3f631c287714b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 36/59] fix: latitude 84, the limit of band X, got a blank UTM
 band letter

---
 utm.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utm.go b/utm.go
index e4a477b..7e3ea8b 100755
--- a/utm.go
+++ b/utm.go
@@ -46,7 +46,6 @@ func rad(d float64) float64 { return d * x }
 func deg(r float64) float64 { return r / x }
 
 var zoneLetters = []zoneLetter{
-	{84, " "},
 	{72, "X"},
 	{64, "W"},
 	{56, "V"},
-- 
2.43.0


From 7948a4376cb5e73966e3cb5bbc618ccc7fb750e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 37/59] fix: the Norway and Svalbard UTM zones took in their
 eastern and northern limits

---
 utm.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utm.go b/utm.go
index 7e3ea8b..e6ca425 100755
--- a/utm.go
+++ b/utm.go
@@ -254,18 +254,18 @@ func latitudeToZoneLetter(latitude float64) string {
 }
 
 func latLonToZoneNumber(latitude float64, longitude float64) int {
-	if 56 <= latitude && latitude <= 64 && 3 <= longitude && longitude <= 12 {
+	if 56 <= latitude && latitude < 64 && 3 <= longitude && longitude < 12 {
 		return 32
 	}
 
 	if 72 <= latitude && latitude <= 84 && longitude >= 0 {
-		if longitude <= 9 {
+		if longitude < 9 {
 			return 31
-		} else if longitude <= 21 {
+		} else if longitude < 21 {
 			return 33
-		} else if longitude <= 33 {
+		} else if longitude < 33 {
 			return 35
-		} else if longitude <= 42 {
+		} else if longitude < 42 {
 			return 37
 		}
 	}
-- 
2.43.0


From 22fde29110b059f7be793561b5ec600c9db6586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 38/59] fix: the equator, whose northing is 0, was labelled as
 southern hemisphere

---
 utm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utm.go b/utm.go
index e6ca425..abfb6de 100755
--- a/utm.go
+++ b/utm.go
@@ -206,7 +206,7 @@ func FromLatLon(latitude, longitude float64, northern bool) (easting, northing f
 
 	if northern {
 		// N north, S south
-		if latitude > 0 {
+		if latitude >= 0 {
 			zoneLetter = "N"
 		} else {
 			zoneLetter = "S"
-- 
2.43.0


From abdcaf136ddae97b929acf61f6ef7ca50bdce8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 39/59] fix: great-circle distances of equal or antipodal
 points could be NaN

---
 point.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/point.go b/point.go
index 2c0e1e2..7f59eb0 100644
--- a/point.go
+++ b/point.go
@@ -47,6 +47,8 @@ func CoordDistance(p1, p2 Point) float64 {
 	lat2 := p2.Y * math.Pi / 180.0
 	lng2 := p2.X * math.Pi / 180.0
 	a := math.Pow(math.Sin((lat2-lat1)/2), 2) + math.Cos(lat1)*math.Cos(lat2)*math.Pow(math.Sin((lng2-lng1)/2), 2)
+	//rounding can push a beyond 1 for antipodal points
+	a = math.Min(a, 1)
 	return 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a)) * EARTHRADIUSMI
 }
 
@@ -55,7 +57,9 @@ func CoordGreateCircle(p1, p2 Point) float64 {
 	lng1 := p1.X * math.Pi / 180.0
 	lat2 := p2.Y * math.Pi / 180.0
 	lng2 := p2.X * math.Pi / 180.0
-	return math.Acos(math.Sin(lat1)*math.Sin(lat2)+math.Cos(lat1)*math.Cos(lat2)*math.Cos(lng2-lng1)) * EARTHRADIUSMI
+	c := math.Sin(lat1)*math.Sin(lat2) + math.Cos(lat1)*math.Cos(lat2)*math.Cos(lng2-lng1)
+	//rounding can push the cosine beyond 1 for equal or antipodal points
+	return math.Acos(math.Max(-1, math.Min(c, 1))) * EARTHRADIUSMI
 }
 
 // 根据距离和方位角进行下一个点的计算，TODO
-- 
2.43.0


From 32846079cdd0741465e5a1263dbcdd4ab7d74d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 40/59] fix: CacConvex never recognised a straight angle,
 sin(pi) is not 0 in floating point

---
 calcaulation.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index a1224cf..4b44d94 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -102,11 +102,12 @@ func pointsCenteriod(points ...Point) Point {
 //计算顶点的凹凸性 先计算待处理点与相邻点的两个向量，再计算两向量的叉乘，根据求得结果的正负可以判断凹凸性。 0代表凸顶点，1代表凹顶点，2代表平角
 func CacConvex(p1, p2, p3 Point) (int8, error) {
 	//直接采用算sin theata 来判断凹凸性
-	theata, err := CacAngle(p1, p2, p3)
+	_, err := CacAngle(p1, p2, p3)
 	if err != nil {
 		return -1, err
 	}
-	res := math.Sin(theata)
+	//the cross product has the sign of the sine, and is exactly 0 for a straight angle
+	res := ConvertPointToVector(p1, p2).Cross(*ConvertPointToVector(p3, p2))
 	if res < 0 {
 		return 0, nil
 	} else if res > 0 {
-- 
2.43.0


From 23e729572f640ecd2c02abfa53a3ed036718d4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 41/59] fix: decoding WKT with several parts or rings, or in
 3-D, failed or repeated the first part

---
 wkt/decode.go | 47 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/wkt/decode.go b/wkt/decode.go
index 4b0ad79..28f8da0 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -101,9 +101,38 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 
 }
 
+// splitParts cuts "(…),(…),(…)" into its bracketed parts
+func splitParts(wkt string) ([]string, error) {
+	var parts []string
+	depth, start := 0, 0
+	for i := 0; i <= len(wkt); i++ {
+		if i == len(wkt) || (wkt[i] == ',' && depth == 0) {
+			part := strings.Trim(wkt[start:i], " ")
+			if !strings.HasPrefix(part, "(") || !strings.HasSuffix(part, ")") {
+				return nil, errors.New("wkt format is error")
+			}
+			parts = append(parts, part)
+			start = i + 1
+		} else if wkt[i] == '(' {
+			depth++
+		} else if wkt[i] == ')' {
+			depth--
+		}
+		if depth < 0 {
+			return nil, errors.New("wkt format is error")
+		}
+	}
+	if depth != 0 {
+		return nil, errors.New("wkt format is error")
+	}
+	return parts, nil
+}
+
 func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`(\ *[(]\ *(?:\ *(?:[0-9-.Ee]+[ ]+[0-9-.Ee]+)[, ]*\ *)*\ *[)])[, ]*`)
-	matches := re.FindStringSubmatch(wkt)
+	matches, err := splitParts(wkt)
+	if err != nil {
+		return nil, err
+	}
 	var ml geo.MultiLineString
 	var mlz geo.MultiLineStringZ
 	for _, v := range matches {
@@ -129,8 +158,10 @@ func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func PolygonFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`(\ *[(]\ *(?:\ *(?:[0-9-.Ee]+[ ]+[0-9-.Ee]+)[, ]*\ *)*\ *[)])[, ]*`)
-	matches := re.FindStringSubmatch(wkt)
+	matches, err := splitParts(wkt)
+	if err != nil {
+		return nil, err
+	}
 	var poly geo.Polygon
 	var polyz geo.PolygonZ
 	for _, v := range matches {
@@ -156,12 +187,14 @@ func PolygonFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`([(](?:\ *[(]\ *(?:\ *(?:[0-9-.]+[ ]+[0-9-.]+)[, ]*\ *)*\ *[)][, ]*)*[)])`)
-	matches := re.FindStringSubmatch(wkt)
+	matches, err := splitParts(wkt)
+	if err != nil {
+		return nil, err
+	}
 	var multiPoly geo.MultiPolygon
 	var multiPolyZ geo.MultiPolygonZ
 	for _, v := range matches {
-		polygon, err := PolygonFromWKT(v)
+		polygon, err := PolygonFromWKT(v[1 : len(v)-1])
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 10a4a651d2fd0f027c26d8bab642b12477e29cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 42/59] fix: WKT positions without two or three numbers crashed
 or were dropped, mixed dimensions were dropped

---
 wkt/decode.go | 44 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/wkt/decode.go b/wkt/decode.go
index 28f8da0..add85df 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -9,8 +9,22 @@ import (
 	"github.com/hzw456/go-geo"
 )
 
+var errMixed = errors.New("2-D and 3-D positions in one geometry")
+
+// splitPosition cuts a position into its two or three ordinates
+func splitPosition(wkt string) ([]string, error) {
+	strs := strings.Fields(wkt)
+	if len(strs) != 2 && len(strs) != 3 {
+		return nil, errors.New("wkt position is error")
+	}
+	return strs, nil
+}
+
 func PointFromWKT(wkt string) (geo.Geometry, error) {
-	strs := strings.Split(strings.Trim(wkt, " "), " ")
+	strs, err := splitPosition(wkt)
+	if err != nil {
+		return nil, err
+	}
 	x, err := strconv.ParseFloat(strs[0], 64)
 	if err != nil {
 		return geo.Point{}, err
@@ -37,7 +51,10 @@ func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
 	var mp geo.MultiPoint
 	var mpz geo.MultiPointZ
 	for _, term := range terms {
-		strs := strings.Split(strings.TrimRight(strings.TrimLeft(term, "("), ")"), " ")
+		strs, err := splitPosition(strings.Trim(term, "() "))
+		if err != nil {
+			return nil, err
+		}
 		x, err := strconv.ParseFloat(strs[0], 64)
 		if err != nil {
 			return nil, err
@@ -56,6 +73,9 @@ func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
 			mp.Append(geo.Point{x, y})
 		}
 	}
+	if len(mp) != 0 && len(mpz) != 0 {
+		return nil, errMixed
+	}
 	if len(mp) != 0 {
 		return mp, nil
 	} else if len(mpz) != 0 {
@@ -72,7 +92,10 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 	var linestring geo.LineString
 	var linestringZ geo.LineStringZ
 	for _, term := range terms {
-		strs := strings.Split(strings.Trim(term, " "), " ")
+		strs, err := splitPosition(term)
+		if err != nil {
+			return nil, err
+		}
 		x, err := strconv.ParseFloat(strs[0], 64)
 		if err != nil {
 			return nil, err
@@ -91,6 +114,9 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 			linestring.Append(geo.Point{x, y})
 		}
 	}
+	if len(linestring) > 0 && len(linestringZ) > 0 {
+		return nil, errMixed
+	}
 	if len(linestring) > 0 {
 		return linestring, nil
 	} else if len(linestringZ) > 0 {
@@ -148,6 +174,9 @@ func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
 			mlz = append(mlz, lineZ)
 		}
 	}
+	if len(ml) > 0 && len(mlz) > 0 {
+		return nil, errMixed
+	}
 	if len(ml) > 0 {
 		return ml, nil
 	} else if len(mlz) > 0 {
@@ -171,12 +200,18 @@ func PolygonFromWKT(wkt string) (geo.Geometry, error) {
 		}
 		if linestring.Type() == geo.GEOMETRY_LINESTRING {
 			line := linestring.(geo.LineString)
+			if err := line.Verify(); err != nil {
+				return nil, err
+			}
 			poly = append(poly, line.ToRing())
 		} else if linestring.Type() == geo.GEOMETRY_LINESTRINGZ {
 			line := linestring.(geo.LineStringZ)
 			polyz = append(polyz, line.ToRing())
 		}
 	}
+	if len(poly) > 0 && len(polyz) > 0 {
+		return nil, errMixed
+	}
 	if len(poly) > 0 {
 		return poly, nil
 	} else if len(polyz) > 0 {
@@ -207,6 +242,9 @@ func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
 		}
 
 	}
+	if len(multiPoly) > 0 && len(multiPolyZ) > 0 {
+		return nil, errMixed
+	}
 	if len(multiPoly) > 0 {
 		return multiPoly, nil
 	} else if len(multiPolyZ) > 0 {
-- 
2.43.0


From e327a8e93be09b0ca2eb43230e4ec1fbbc4ee914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 43/59] fix: decoding GeoJSON with malformed, missing or mixed
 coordinates crashed or dropped ordinates

---
 geojson/geojson.go | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/geojson/geojson.go b/geojson/geojson.go
index ef60a8a..11613d6 100644
--- a/geojson/geojson.go
+++ b/geojson/geojson.go
@@ -98,6 +98,12 @@ func MarshalGeo(geom geo.Geometry) ([]byte, error) {
 }
 
 func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
+	if gjson == nil {
+		return nil, errors.New("no geometry")
+	}
+	if err := verifyCoordinates(gjson); err != nil {
+		return nil, err
+	}
 	switch gjson.Type {
 	case "Point":
 		isZ := isInterPointZ(gjson.Coordinates)
@@ -124,7 +130,43 @@ func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
 	case "MultiPolygon":
 		return nil, errors.New("Not Support MultiPolygon (TODO)")
 	}
-	return nil, nil
+	return nil, errors.New("no such type")
+}
+
+// verifyCoordinates checks that the coordinates have the nesting of the type and one dimension
+func verifyCoordinates(gjson *GeoJson) error {
+	var positions [][]float64
+	switch gjson.Type {
+	case "Point":
+		position, err := decodePosition(gjson.Coordinates)
+		if err != nil {
+			return err
+		}
+		positions = append(positions, position)
+	case "LineString":
+		line, err := decodePositionSet(gjson.Coordinates)
+		if err != nil {
+			return err
+		}
+		positions = line
+	case "Polygon":
+		paths, err := decodePathSet(gjson.Coordinates)
+		if err != nil {
+			return err
+		}
+		for _, path := range paths {
+			positions = append(positions, path...)
+		}
+	}
+	for _, position := range positions {
+		if len(position) < 2 || len(position) > 3 {
+			return fmt.Errorf("not a valid position, got %v", position)
+		}
+		if len(position) != len(positions[0]) {
+			return errors.New("2-D and 3-D positions in one geometry")
+		}
+	}
+	return nil
 }
 
 // func (c Collection) ToGeojson() ([]byte, error) {
-- 
2.43.0


From 4940637bb5ca5d65fd1b27bf3ecef07b5cac02f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 44/59] fix: a nearest neighbour search for no neighbours
 panicked on an index of several levels

---
 rtree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtree.go b/rtree.go
index b2490a5..eb78471 100644
--- a/rtree.go
+++ b/rtree.go
@@ -796,6 +796,9 @@ func (p *Point) minDist(r *Box) float64 {
 
 // NearestNeighbors gets the closest Spatials to the Point.
 func (tree *Rtree) NearestNeighbors(k int, p Point) []Spatial {
+	if k <= 0 {
+		return []Spatial{}
+	}
 	maxBufSize := tree.MaxChildren * tree.Depth()
 	branches := make([]entry, maxBufSize)
 	branchDists := make([]float64, maxBufSize)
-- 
2.43.0


From fd896dedecfd3ead0dfe953334e369d0c916654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:26 +0000
Subject: [PATCH 45/59] fix: setting the bounding box of a decoded feature
 ignored its geometry

---
 geojson/feature.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/geojson/feature.go b/geojson/feature.go
index b8be919..36732c1 100644
--- a/geojson/feature.go
+++ b/geojson/feature.go
@@ -30,7 +30,15 @@ func NewFeature(geometry geo.Geometry) *Feature {
 }
 
 func (f *Feature) SetBoundingBox() {
-	box := geo.BoundingBox(f.Geometry)
+	geometry := f.Geometry
+	if geometry == nil {
+		// a decoded feature has its geometry in GeometryJson only
+		var err error
+		if geometry, err = UnmarshalGeo(f.GeometryJson); err != nil {
+			return
+		}
+	}
+	box := geo.BoundingBox(geometry)
 	f.BoundingBox = []float64{box.MinX, box.MinY, box.MaxX, box.MaxY}
 }
 
-- 
2.43.0


From 1e77ec60d29a976d0ff75350e56467eae4aac270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 46/59] fix: geohash of latitude 90 and longitude 180 was the
 cell at the opposite end

---
 geohash.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geohash.go b/geohash.go
index a55f711..1d16dde 100644
--- a/geohash.go
+++ b/geohash.go
@@ -1,11 +1,16 @@
 package geo
 
 import (
+	"math"
+
 	"github.com/mmcloughlin/geohash"
 )
 
 func GeohashEncode(pt Point, Precision uint, srid SRID) string {
-	return geohash.EncodeWithPrecision(pt.Y, pt.X, Precision)
+	//latitude 90 and longitude 180 lie in the last cells, the integer encoding would wrap them round to the first
+	lat := math.Min(pt.Y, 90-180/math.Exp2(33))
+	lng := math.Min(pt.X, 180-360/math.Exp2(33))
+	return geohash.EncodeWithPrecision(lat, lng, Precision)
 }
 
 func GeohashGetCenter(hash string, srid SRID) Point {
-- 
2.43.0


From 296b67261aac7c6198850fb482252bd84728eb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 47/59] fix: UTM zone just west of a zone limit was the next
 one (61 near 180)

---
 utm.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utm.go b/utm.go
index abfb6de..f8d36fa 100755
--- a/utm.go
+++ b/utm.go
@@ -270,7 +270,12 @@ func latLonToZoneNumber(latitude float64, longitude float64) int {
 		}
 	}
 
-	return int((longitude+180)/6) + 1
+	zone := int((longitude+180)/6) + 1
+	// the sum above is rounded, just west of a zone's west limit it may reach it
+	if longitude < float64(zone*6-186) {
+		zone--
+	}
+	return zone
 }
 
 func zoneNumberToCentralLongitude(zoneNumber int) int {
-- 
2.43.0


From 1584bcf6496d87b20eb6b9b61358a80c7b5780c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 48/59] fix: destination was NaN when reaching a pole and off
 its bearing when leaving one

---
 point.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/point.go b/point.go
index 7f59eb0..c094093 100644
--- a/point.go
+++ b/point.go
@@ -69,7 +69,7 @@ func DestinationPoint(lat, lon, distance, bearing float64) (float64, float64) {
 	var toDegrees = func(v float64) float64 { return v * 180 / math.Pi }
 
 	// sinφ2 = sinφ1·cosδ + cosφ1·sinδ·cosθ
-	// tanΔλ = sinθ·sinδ·cosφ1 / cosδ−sinφ1·sinφ2
+	// tanΔλ = sinθ·sinδ / cosφ1·cosδ−sinφ1·sinδ·cosθ
 	// see mathforum.org/library/drmath/view/52049.html for derivation
 
 	var δ = distance / EARTHRADIUSMI // angular distance in radians
@@ -79,9 +79,10 @@ func DestinationPoint(lat, lon, distance, bearing float64) (float64, float64) {
 	var λ1 = toRadians(lon)
 
 	sinφ2 := math.Sin(φ1)*math.Cos(δ) + math.Cos(φ1)*math.Sin(δ)*math.Cos(θ)
-	φ2 := math.Asin(sinφ2)
-	y := math.Sin(θ) * math.Sin(δ) * math.Cos(φ1)
-	x := math.Cos(δ) - math.Sin(φ1)*math.Sin(φ2)
+	y := math.Sin(θ) * math.Sin(δ)
+	x := math.Cos(φ1)*math.Cos(δ) - math.Sin(φ1)*math.Sin(δ)*math.Cos(θ)
+	//the arc sine is not defined when rounding pushes sinφ2 beyond 1 at a pole
+	φ2 := math.Atan2(sinφ2, math.Hypot(x, y))
 	λ2 := λ1 + math.Atan2(y, x)
 	return toDegrees(φ2), math.Mod((toDegrees(λ2)+540), 360) - 180 // normalise to −180..+180°
 }
-- 
2.43.0


From 9c2b4d67420087b8cc6c6e08ce64a5a1c1c91037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 49/59] fix: neighbors of an S2 cell at a corner of a cube face
 listed one cell twice

---
 googleS2.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/googleS2.go b/googleS2.go
index a481308..e404f89 100644
--- a/googleS2.go
+++ b/googleS2.go
@@ -39,8 +39,13 @@ func S2GetAllNeighbors(cellID uint64, srid SRID) []uint64 {
 	var cellIDsInt []uint64
 	if srid == SRID_WGS84_GPS {
 		cellIDs := cellIDS2.AllNeighbors(cellIDS2.Level())
+		//a cell at a corner of a cube face is given the same neighbor twice
+		seen := map[s2.CellID]bool{}
 		for _, cellID := range cellIDs {
-			cellIDsInt = append(cellIDsInt, uint64(cellID))
+			if !seen[cellID] {
+				seen[cellID] = true
+				cellIDsInt = append(cellIDsInt, uint64(cellID))
+			}
 		}
 
 		return cellIDsInt
-- 
2.43.0


From 6bad7476a34073af7fe47d532f4fa966c9d031c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 50/59] fix: index crashed inserting objects whose box size
 overflows a float64

---
 rtree.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rtree.go b/rtree.go
index eb78471..4b51a23 100644
--- a/rtree.go
+++ b/rtree.go
@@ -316,10 +316,11 @@ func (tree *Rtree) chooseNode(n *node, e entry, level int) *node {
 	// find the entry whose bb needs least enlargement to include obj
 	diff := math.MaxFloat64
 	var chosen entry
-	for _, en := range n.entries {
+	for i, en := range n.entries {
 		bb := en.bb.Union(e.bb)
 		d := bb.Size() - en.bb.Size()
-		if d < diff || (d == diff && en.bb.Size() < chosen.bb.Size()) {
+		// the first one at least, when the sizes are beyond what a float64 holds
+		if i == 0 || d < diff || (d == diff && en.bb.Size() < chosen.bb.Size()) {
 			diff = d
 			chosen = en
 		}
-- 
2.43.0


From fe749e2e45f1759a32e8abbb28abb4ade7ae049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 51/59] fix: nearest neighbours of a huge k panicked or ran out
 of memory

---
 rtree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtree.go b/rtree.go
index 4b51a23..c17eacc 100644
--- a/rtree.go
+++ b/rtree.go
@@ -797,6 +797,9 @@ func (p *Point) minDist(r *Box) float64 {
 
 // NearestNeighbors gets the closest Spatials to the Point.
 func (tree *Rtree) NearestNeighbors(k int, p Point) []Spatial {
+	if k > tree.size {
+		k = tree.size
+	}
 	if k <= 0 {
 		return []Spatial{}
 	}
-- 
2.43.0


From 7a778d30f88b5f2639c4a0c3602e0dfec033f9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 52/59] fix: nearest neighbours in a wrong order where squares
 leave a float64's range

---
 rtree.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/rtree.go b/rtree.go
index c17eacc..8bd658b 100644
--- a/rtree.go
+++ b/rtree.go
@@ -773,26 +773,19 @@ func pruneEntriesMinDist(d float64, entries []entry, minDists []float64) []entry
 }
 
 func (p *Point) minDist(r *Box) float64 {
-	sum := 0.0
+	var dx, dy float64
 	if p.X < r.MinX {
-		d := p.X - r.MinX
-		sum += d * d
+		dx = r.MinX - p.X
 	} else if p.X > r.MaxX {
-		d := p.X - r.MaxX
-		sum += d * d
-	} else {
-		sum += 0
+		dx = p.X - r.MaxX
 	}
 	if p.Y < r.MinY {
-		d := p.Y - r.MinY
-		sum += d * d
+		dy = r.MinY - p.Y
 	} else if p.Y > r.MaxY {
-		d := p.Y - r.MaxY
-		sum += d * d
-	} else {
-		sum += 0
+		dy = p.Y - r.MaxY
 	}
-	return sum
+	// the sum of the squares may be out of a float64's range
+	return math.Hypot(dx, dy)
 }
 
 // NearestNeighbors gets the closest Spatials to the Point.
-- 
2.43.0


From cf209ed6f1b958e137fb3343fbc04f9bc3222c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 53/59] fix: quadrant angle failed beside a large x coordinate

---
 calcaulation.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calcaulation.go b/calcaulation.go
index 4b44d94..93fa0ba 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -30,7 +30,9 @@ func CacAngle(point1, centerPoint, point2 Point) (float64, error) {
 }
 
 func CacQuadrantAngle(point1, point2 Point) (float64, error) {
-	angle, err := CacAngle(Point{point1.X + 0.0000001, point1.Y}, point1, point2)
+	//a step along the x axis that is not lost beside a large coordinate
+	step := math.Max(1, math.Abs(point1.X))
+	angle, err := CacAngle(Point{point1.X + step, point1.Y}, point1, point2)
 	return angle, err
 }
 
-- 
2.43.0


From 960b3bc194cb4bc8dfcc661c41a7ea66aec5fd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 54/59] fix: rotating a polygon dropped its holes

---
 calcaulation.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index 93fa0ba..58e99a3 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -288,12 +288,16 @@ func RotateCW(geo Geometry, center Point, angle float64) Geometry {
 		return Point{math.Trunc(x*10000) / 10000, math.Trunc(y*10000) / 10000}
 	case GEOMETRY_POLYGON:
 		poly := geo.(Polygon)
-		var pts []Point
-		for _, v := range poly.GetExteriorRing().GetPointSet() {
-			geo1 := RotateCW(v, center, angle)
-			pts = append(pts, geo1.(Point))
+		var rings []LinearRing
+		for _, ring := range poly {
+			var pts []Point
+			for _, v := range ring.GetPointSet() {
+				geo1 := RotateCW(v, center, angle)
+				pts = append(pts, geo1.(Point))
+			}
+			rings = append(rings, *NewLinearRing(pts...))
 		}
-		return *NewPolygonFromPois(pts...)
+		return *NewPolygon(rings...)
 	}
 	return nil
 }
-- 
2.43.0


From 0a3a49b14aeb8e1aad1eed06dcd217e8122ea7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 55/59] fix: centroid and area of small shapes far from the
 origin lost their digits

---
 calcaulation.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index 58e99a3..c4d51a4 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -57,8 +57,9 @@ func relativeArea(poly Polygon) float64 {
 	for i := 0; i < ptCount; i++ {
 		//最后一个点的处理
 		j := (i + 1) % ptCount
-		area += lr[i].X * lr[j].Y
-		area -= lr[i].Y * lr[j].X
+		//from the first point, a small shape far from the origin keeps its digits
+		area += (lr[i].X - lr[0].X) * (lr[j].Y - lr[0].Y)
+		area -= (lr[i].Y - lr[0].Y) * (lr[j].X - lr[0].X)
 	}
 	area /= 2
 	return area
@@ -205,15 +206,19 @@ func polyCentroid(poly Polygon) Point {
 	for i := 0; i < ptCount; i++ {
 		//最后一个点的处理
 		j := (i + 1) % ptCount
-		centroidX += (lr[i].X + lr[j].X) * (lr[i].X*lr[j].Y - lr[j].X*lr[i].Y)
-		centroidY += (lr[i].Y + lr[j].Y) * (lr[i].X*lr[j].Y - lr[j].X*lr[i].Y)
-		signArea += lr[i].X*lr[j].Y - lr[j].X*lr[i].Y
+		//from the first point, a small shape far from the origin keeps its digits
+		xi, yi := lr[i].X-lr[0].X, lr[i].Y-lr[0].Y
+		xj, yj := lr[j].X-lr[0].X, lr[j].Y-lr[0].Y
+		centroidX += (xi + xj) * (xi*yj - xj*yi)
+		centroidY += (yi + yj) * (xi*yj - xj*yi)
+		signArea += xi*yj - xj*yi
 	}
 	if signArea == 0 {
 		return Point{math.NaN(), math.NaN()}
 	}
 	centroidX *= 1 / (6 * signArea / 2)
 	centroidY *= 1 / (6 * signArea / 2)
+	centroidX, centroidY = centroidX+lr[0].X, centroidY+lr[0].Y
 	if holes := poly.GetInteriorRing(); len(holes) > 0 {
 		area := polyArea(Polygon{lr})
 		centroidX, centroidY = centroidX*area, centroidY*area
-- 
2.43.0


From 03e26ebd5954dd75aa0e2c4eb391d793ee20b966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 56/59] fix: planar distances beyond 2^31 were reported as
 2^31, or 0 between lines

---
 calcaulation.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index c4d51a4..b475c61 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -251,7 +251,7 @@ func PointPolygonDistance(p Point, poly Polygon, srid SRID) float64 {
 
 		segmentDistance, _ := PointToSegmentDistance(p, previousPoint, currentPoint, srid)
 
-		if segmentDistance < distance {
+		if i == 0 || segmentDistance < distance {
 			distance = segmentDistance
 		}
 	}
@@ -274,7 +274,7 @@ func PointHitLineString(p Point, line LineString, srid SRID) (Point, int, float6
 
 		segmentDistance, tempPt := PointToSegmentDistance(p, previousPoint, currentPoint, srid)
 
-		if segmentDistance < distance {
+		if i == 0 || segmentDistance < distance {
 			distance = segmentDistance
 			nearestIndex = i
 			nearestPt = tempPt
@@ -318,25 +318,25 @@ func HausdorffDistance(line1, line2 LineString, srid SRID) float64 {
 	maxDis := 0.0
 	for _, pt1 := range line1 {
 		minDis := INF
-		for _, pt2 := range line2 {
+		for i, pt2 := range line2 {
 			d := PointDistance(pt1, pt2, srid)
-			if minDis > d {
+			if i == 0 || minDis > d {
 				minDis = d
 			}
 		}
-		if maxDis < minDis && minDis != INF {
+		if maxDis < minDis {
 			maxDis = minDis
 		}
 	}
 	for _, pt1 := range line2 {
 		minDis := INF
-		for _, pt2 := range line1 {
+		for i, pt2 := range line1 {
 			d := PointDistance(pt1, pt2, srid)
-			if minDis > d {
+			if i == 0 || minDis > d {
 				minDis = d
 			}
 		}
-		if maxDis < minDis && minDis != INF {
+		if maxDis < minDis {
 			maxDis = minDis
 		}
 	}
-- 
2.43.0


From 2a06ee385f085c248f5e5257ee20f691df79cbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 57/59] fix: the Hausdorff distance to a line without length
 was 2^31

---
 calcaulation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calcaulation.go b/calcaulation.go
index b475c61..972fda1 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -312,7 +312,7 @@ func RotateCCW(geo Geometry, center Point, angle float64) Geometry {
 }
 
 func HausdorffDistance(line1, line2 LineString, srid SRID) float64 {
-	if line1.Length() == 0 || line2.Length() == 0 {
+	if line1.GetPointCount() == 0 || line2.GetPointCount() == 0 {
 		return INF
 	}
 	maxDis := 0.0
-- 
2.43.0


From bf37a8a4fce64b30cc96c62ec0144eb8d2c3ca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 58/59] fix: the distance to a segment shorter than 1e-162 was
 not a number

---
 calcaulation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/calcaulation.go b/calcaulation.go
index 972fda1..970300f 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -140,7 +140,8 @@ func PointToSegmentDistance(point, p1, p2 Point, srid SRID) (float64, Point) {
 	var u float64 = ((point.X-p1.X)*xDelta + (point.Y-p1.Y)*yDelta) / (xDelta*xDelta + yDelta*yDelta)
 
 	var closestPointOnLine Point
-	if u < 0 || p1 == p2 {
+	//0/0 for a segment without length, or one whose squared length is lost
+	if !(u >= 0) {
 		closestPointOnLine = p1
 	} else if u > 1 {
 		closestPointOnLine = p2
-- 
2.43.0


From d4bfca149c2efbf5aae07e6f08ab197506954d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 59/59] fix: a line break in WKT lost the positions after it,
 or was refused

Decode of "MULTIPOINT((0 0),\n(1 1))" gave one point.
---
 wkt/decode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wkt/decode.go b/wkt/decode.go
index add85df..1dcdf7b 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -255,7 +255,8 @@ func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func Decode(wkt string) (geo.Geometry, error) {
-	wkt = strings.Trim(wkt, " ")
+	//line breaks and tabs count as blanks
+	wkt = strings.Join(strings.Fields(wkt), " ")
 	wkt = strings.Replace(wkt, ", ", ",", -1)
 	re := regexp.MustCompile(`([A-Z]+)\s*[(]\s*(\(*.+\)*)\s*[)]`)
 	match := re.FindStringSubmatch(wkt)
-- 
2.43.0

