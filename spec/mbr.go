package geo

import "math"

// ---- P30: the minimum rectangle is the best one along an edge of the hull

func vanyTurned(g Geometry, center Point, angle float64) Geometry    { return nil }
func vanyTurnedBack(g Geometry, center Point, angle float64) Polygon { return nil }

func vanyBounds(g Geometry) *Box    { return nil }
func vanyRect(b Box) Geometry       { return nil }
func vanyMiddle(g Geometry) Point   { return Point{} }
func vanyCovers(g Geometry) float64 { return 0 }

func vturnBack(g Geometry, center Point, angle float64) Geometry {
	return vanyTurnedBack(g, center, angle)
}

// vhullTriangle stands for the hull: the first three points, closed.
func vhullTriangle(pts ...Point) Polygon {
	return Polygon{LinearRing{pts[0], pts[1], pts[2], pts[0]}}
}

func vhullQuad(pts ...Point) Polygon {
	return Polygon{LinearRing{pts[0], pts[1], pts[2], pts[3], pts[0]}}
}

// vmbr is the least of the boxes around the hull turned so that one of its
// edges is level, turned back; the first of several.
func vmbr(hull Polygon) Polygon {
	c := vanyMiddle(hull)
	if math.IsNaN(c.X) || math.IsNaN(c.Y) {
		return nil
	}
	best, turn := math.MaxFloat64, 0.0
	var rect Geometry
	for i := 1; i < len(hull[0]); i++ {
		a, b := hull[0][i-1], hull[0][i]
		t := math.Atan2(b.Y-a.Y, b.X-a.X)
		r := vanyRect(*vanyBounds(vanyTurned(hull, c, t)))
		if s := vanyCovers(r); s < best {
			best, rect, turn = s, r, t
		}
	}
	return vanyTurnedBack(rect, c, turn)
}

// vmeasured: every box has an area to compare.
func vmeasured(hull Polygon) bool {
	c := vanyMiddle(hull)
	for i := 1; i < len(hull[0]); i++ {
		a, b := hull[0][i-1], hull[0][i]
		t := math.Atan2(b.Y-a.Y, b.X-a.X)
		if s := vanyCovers(vanyRect(*vanyBounds(vanyTurned(hull, c, t)))); !(s >= 0 && s < math.MaxFloat64) {
			return false
		}
	}
	return true
}

//verif:law P30 mbr-triangle via=ConvexHull:vhullTriangle via=RotateCW:vanyTurned via=RotateCCW:vturnBack via=BoundingBox:vanyBounds via=Centroid:vanyMiddle via=BoxToGeo:vanyRect via=GetArea:vanyCovers unroll=6
func vlawMbr3(p, q, r Point) (Polygon, Polygon, Polygon, Polygon, Polygon, Polygon) {
	hull := Polygon{LinearRing{p, q, r, p}}
	if !vmeasured(hull) {
		return nil, nil, nil, nil, nil, nil
	}
	want := vmbr(hull)
	return Mbr(MultiPoint{p, q, r}), Mbr(LineString{p, q, r}), Mbr(MultiLineString{LineString{p}, nil, LineString{q, r}}),
		want, want, want
}

//verif:law P30 mbr-rings via=ConvexHull:vhullTriangle via=RotateCW:vanyTurned via=RotateCCW:vturnBack via=BoundingBox:vanyBounds via=Centroid:vanyMiddle via=BoxToGeo:vanyRect via=GetArea:vanyCovers unroll=6
func vlawMbrRings(p, q, r, h Point) (Polygon, Polygon, Polygon, Polygon, Polygon, Polygon, Polygon, Polygon) {
	hull := Polygon{LinearRing{p, q, r, p}}
	if !vmeasured(hull) {
		return nil, nil, nil, nil, nil, nil, nil, nil
	}
	want := vmbr(hull)
	return Mbr(Polygon{LinearRing{p, q, r, p}, LinearRing{h, h, h}}), Mbr(MultiPolygon{Polygon{LinearRing{p, q}, LinearRing{h}}, Polygon{LinearRing{r}}}),
		Mbr(MultiPolygon{Polygon{LinearRing{p}}, Polygon{LinearRing{q}, LinearRing{h}, LinearRing{h, h}}, Polygon{LinearRing{r}, LinearRing{h, h, h}}}), Mbr(MultiPolygon{Polygon{LinearRing{}}, Polygon{}, Polygon{LinearRing{p, q, r}}}),
		want, want, want, want
}

//verif:law P30 mbr-quad via=ConvexHull:vhullQuad via=RotateCW:vanyTurned via=RotateCCW:vturnBack via=BoundingBox:vanyBounds via=Centroid:vanyMiddle via=BoxToGeo:vanyRect via=GetArea:vanyCovers unroll=8
func vlawMbr4(p, q, r, s Point) (Polygon, Polygon) {
	hull := Polygon{LinearRing{p, q, r, s, p}}
	if !vmeasured(hull) {
		return nil, nil
	}
	return Mbr(MultiPoint{p, q, r, s}), vmbr(hull)
}

func vhullNone(pts ...Point) Polygon { return nil }

//verif:law P30 mbr-none via=ConvexHull:vhullNone via=RotateCW:vanyTurned via=RotateCCW:vturnBack via=BoundingBox:vanyBounds via=Centroid:vanyMiddle via=BoxToGeo:vanyRect via=GetArea:vanyCovers unroll=6
func vlawMbrNone(p Point, pts MultiPoint) (bool, int, bool, int) {
	return Mbr(pts) == nil, len(Mbr(p)), true, 0
}
