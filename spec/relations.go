package geo

import (
	"errors"
	"math"
)

// ---- P33: relations

func vCross(ax, ay, bx, by float64) float64 { return ax*by - ay*bx }

//verif:refines P33 SegmentRelation nopanic
func vspecSegmentRelation(s, t LineSegment) GeometryRealation {
	rx, ry := s.End.X-s.Start.X, s.End.Y-s.Start.Y
	qx, qy := t.End.X-t.Start.X, t.End.Y-t.Start.Y
	ox, oy := t.Start.X-s.Start.X, t.Start.Y-s.Start.Y
	d := vCross(rx, ry, qx, qy)
	if d == 0 {
		if vCross(ox, oy, rx, ry) == 0 {
			return RELA_TOUCH
		}
		return RELA_DISJOINT
	}
	u := vCross(ox, oy, qx, qy) / d
	v := vCross(ox, oy, rx, ry) / d
	if 0 < u && u < 1 && 0 < v && v < 1 {
		return RELA_INTERSECT
	}
	if (u == 0 || u == 1) && (v == 0 || v == 1) {
		return RELA_TOUCH
	}
	return RELA_DISJOINT
}

func vOnSegment(a, b, p Point) bool {
	return (p.X-a.X)*(b.Y-a.Y) == (b.X-a.X)*(p.Y-a.Y) &&
		math.Min(a.X, b.X) <= p.X && p.X <= math.Max(a.X, b.X) &&
		math.Min(a.Y, b.Y) <= p.Y && p.Y <= math.Max(a.Y, b.Y)
}

//verif:refines P33 IsPointOnSegment nopanic
func vspecOnSegment(a, b, p Point) bool { return vOnSegment(a, b, p) }

//verif:refines P33 IsPointOnLine nopanic
func vspecOnLine(p Point, l LineString) bool {
	for i := 0; i+1 < len(l); i++ {
		if vOnSegment(l[i], l[i+1], p) {
			return true
		}
	}
	return len(l) > 0 && vOnSegment(l[len(l)-1], l[len(l)-1], p)
}

//verif:refines P33 LineRelation nopanic
func vspecLineRelation(a, b LineString) GeometryRealation {
	for i := 0; i+1 < len(a); i++ {
		for j := 0; j+1 < len(b); j++ {
			if SegmentRelation(LineSegment{a[i], a[i+1]}, LineSegment{b[j], b[j+1]}) != RELA_DISJOINT {
				return RELA_INTERSECT
			}
		}
	}
	return RELA_DISJOINT
}

func vInside(p Point, poly Polygon) bool {
	r := IsPointInPolygon(p, poly)
	return r == RELA_CONTAIN || r == RELA_TOUCH
}

//verif:refines P33 SegPolyRelation nopanic
func vspecSegPoly(s LineSegment, poly Polygon) GeometryRealation {
	touch := false
	if len(poly) > 0 {
		r := poly[0]
		for i := 0; i+1 < len(r); i++ {
			switch SegmentRelation(LineSegment{r[i], r[i+1]}, s) {
			case RELA_INTERSECT:
				return RELA_INTERSECT
			case RELA_TOUCH:
				touch = true
			}
		}
	}
	a, b := vInside(s.Start, poly), vInside(s.End, poly)
	if a != b {
		return RELA_UNKNOWN
	}
	switch {
	case a && touch:
		return RELA_COVER
	case a:
		return RELA_CONTAIN
	case touch:
		return RELA_TOUCH
	}
	return RELA_DISJOINT
}

func vPath(l []Point, poly Polygon) GeometryRealation {
	cur := RELA_UNKNOWN
	for i := 0; i+1 < len(l); i++ {
		r := SegPolyRelation(LineSegment{l[i], l[i+1]}, poly)
		if r == RELA_INTERSECT {
			return RELA_INTERSECT
		}
		if cur == RELA_UNKNOWN || cur == RELA_CONTAIN || cur == RELA_DISJOINT {
			cur = r
		}
	}
	return cur
}

//verif:refines P33 LinePolyRelation nopanic
func vspecLinePoly(l LineString, poly Polygon) GeometryRealation { return vPath(l, poly) }

//verif:refines P33 LinearPolyRelation nopanic
func vspecRingPoly(l LinearRing, poly Polygon) GeometryRealation { return vPath(l, poly) }

//verif:refines P33 PolyRelation nopanic
func vspecPolyPoly(a, b Polygon) GeometryRealation {
	if len(a) == 0 {
		return RELA_UNKNOWN
	}
	return vPath(a[0], b)
}

//verif:refines P33 Polygon.SelfIntersect nopanic
func vspecSelfIntersect(p Polygon) bool {
	if len(p) == 0 {
		return false
	}
	r := p[0]
	for i := 0; i+1 < len(r); i++ {
		for j := i + 1; j+1 < len(r); j++ {
			if SegmentRelation(LineSegment{r[i], r[i+1]}, LineSegment{r[j], r[j+1]}) == RELA_INTERSECT {
				return true
			}
		}
	}
	return false
}

func vAbove(y float64) bool { return y >= 0.000001 }

//verif:refines P36 IsPointInPolygon nopanic
func vspecInPolygon(p Point, poly Polygon) GeometryRealation {
	in := false
	if len(poly) > 0 {
		r := poly[0]
		for i := 0; i+1 < len(r); i++ {
			a, b := r[i], r[i+1]
			if IsPointOnSegment(a, b, p) {
				return RELA_TOUCH
			}
			if vAbove(a.Y-p.Y) != vAbove(b.Y-p.Y) {
				if p.X-(p.Y-a.Y)*(a.X-b.X)/(a.Y-b.Y)-a.X <= -0.000001 {
					in = !in
				}
			}
		}
	}
	if in {
		return RELA_CONTAIN
	}
	return RELA_DISJOINT
}

// ---- P37: polygon verification

//verif:refines P37 Polygon.Verify nopanic
func vspecVerify(p *Polygon) error {
	var r LinearRing
	if len(*p) > 0 {
		r = (*p)[0]
	}
	if len(r) < 4 {
		return errors.New("points")
	}
	for i := 0; i < len(r)-1; i++ {
		if math.Abs(r[i].Y) > 90 || math.Abs(r[i].X) > 180 {
			return errors.New("range")
		}
	}
	if GetArea(*p) < 0.0000000001 || p.SelfIntersect() {
		return errors.New("shape")
	}
	return nil
}
