package geo

import (
	"errors"
	"math"
)

// ---- P17: distances

func vEuclid(p, q Point) float64 {
	dx, dy := q.X-p.X, q.Y-p.Y
	return math.Sqrt(dx*dx + dy*dy)
}

func vHaversine(p, q Point) float64 {
	f1, f2 := p.Y*math.Pi/180, q.Y*math.Pi/180
	s := math.Sin((f2 - f1) / 2)
	t := math.Sin((q.X*math.Pi/180 - p.X*math.Pi/180) / 2)
	h := s*s + math.Cos(f1)*math.Cos(f2)*t*t
	return 6371000 * 2 * math.Atan2(math.Sqrt(h), math.Sqrt(1-h))
}

func vDist(p, q Point, srid SRID) float64 {
	if srid == 4326 {
		return vHaversine(p, q)
	}
	return vEuclid(p, q)
}

//verif:refines P17 EuclideanDis nopanic
func vspecEuclideanDis(p, q Point) float64 { return vEuclid(p, q) }

//verif:refines P17 EuclideanDistance nopanic
func vspecEuclideanDistance(p, q Point) float64 { return vEuclid(p, q) }

//verif:refines P17 Point.Distance nopanic
func vspecPointDist(p, q Point) float64 { return vEuclid(p, q) }

//verif:refines P17 EuclideanDisZ nopanic
func vspecEuclideanDisZ(p, q PointZ) float64 {
	dx, dy, dz := q.X-p.X, q.Y-p.Y, q.Z-p.Z
	return math.Sqrt(dx*dx + dy*dy + dz*dz)
}

//verif:refines P17 CoordDistance nopanic
func vspecCoordDistance(p, q Point) float64 { return vHaversine(p, q) }

//verif:refines P17 CoordGreateCircle nopanic
func vspecGreatCircle(p, q Point) float64 {
	f1, f2 := p.Y*math.Pi/180, q.Y*math.Pi/180
	dl := q.X*math.Pi/180 - p.X*math.Pi/180
	return 6371000 * math.Acos(math.Sin(f1)*math.Sin(f2)+math.Cos(f1)*math.Cos(f2)*math.Cos(dl))
}

//verif:refines P17 PointDistance nopanic
func vspecPointDistance(p, q Point, srid SRID) float64 { return vDist(p, q, srid) }

//verif:refines P17 LineString.Length nopanic
func vspecLength(l LineString) float64 {
	d := 0.0
	for i := 1; i < len(l); i++ {
		d += vEuclid(l[i-1], l[i])
	}
	return d
}

//verif:refines P17 LinearRing.length nopanic
func vspecRingLength(l LinearRing) float64 {
	d := 0.0
	for i := 1; i < len(l); i++ {
		d += vEuclid(l[i-1], l[i])
	}
	return d
}

// ---- P35: nearest point of a segment

func vFoot(p, a, b Point) (float64, Point) {
	dx, dy := b.X-a.X, b.Y-a.Y
	u := ((p.X-a.X)*dx + (p.Y-a.Y)*dy) / (dx*dx + dy*dy)
	return u, Point{a.X + u*dx, a.Y + u*dy}
}

func vpreProper(p, a, b Point, srid SRID) bool { return !(a.X == b.X && a.Y == b.Y) }

func vpreDegenerate(p, a, b Point, srid SRID) bool { return a.X == b.X && a.Y == b.Y }

//verif:refines P35 PointToSegmentDistance nopanic pre=vpreProper
func vspecPointToSegment(p, a, b Point, srid SRID) (float64, Point) {
	u, n := vFoot(p, a, b)
	if u < 0 {
		n = a
	}
	if u > 1 {
		n = b
	}
	return vDist(p, n, srid), n
}

//verif:refines P35 PointToSegmentDistance nopanic pre=vpreDegenerate
func vspecPointToNoSegment(p, a, b Point, srid SRID) (float64, Point) { return vDist(p, a, srid), a }

//verif:refines P35 PointToLineDistance nopanic pre=vpreProper
func vspecPointToLine(p, a, b Point, srid SRID) (float64, Point, float64) {
	u, n := vFoot(p, a, b)
	return vDist(p, n, srid), n, u
}

//verif:refines P35 PointToLineDistance nopanic pre=vpreDegenerate
func vspecPointToNoLine(p, a, b Point, srid SRID) (float64, Point, float64) {
	return vDist(p, a, srid), a, 0
}

// ---- P18: every segment is visited

//verif:refines P18 PointHitLineString soft
func vspecHitNear(p Point, l LineString, srid SRID) (Point, int, float64) {
	return vspecHit(p, l, srid)
}

//verif:refines P18 PointHitLineString nopanic via=PointToSegmentDistance:vanySegDist
func vspecHit(p Point, l LineString, srid SRID) (Point, int, float64) {
	best, at, near := INF, 0, Point{}
	for i := 1; i < len(l); i++ {
		d, n := PointToSegmentDistance(p, l[i-1], l[i], srid)
		if d < best {
			best, at, near = d, i-1, n
		}
	}
	return near, at, best
}

func vpreRing(p Point, poly Polygon, srid SRID) bool { return len(poly) > 0 && len(poly[0]) > 1 }

func vNearestEdge(p Point, r LinearRing, srid SRID) float64 {
	best := INF
	n := len(r) - 1
	for i := 0; i < n; i++ {
		j := i + 1
		if j == n {
			j = 0
		}
		d, _ := PointToSegmentDistance(p, r[i], r[j], srid)
		if d < best {
			best = d
		}
	}
	return best
}

//verif:refines P18 PointPolygonDistance soft pre=vpreRing
func vspecPointPolygonNear(p Point, poly Polygon, srid SRID) float64 {
	return vspecPointPolygon(p, poly, srid)
}

//verif:refines P18 PointPolygonDistance nopanic pre=vpreRing via=PointToSegmentDistance:vanySegDist
func vspecPointPolygon(p Point, poly Polygon, srid SRID) float64 {
	if r := IsPointInPolygon(p, poly); r == RELA_CONTAIN || r == RELA_TOUCH {
		return 0
	}
	return vNearestEdge(p, poly[0], srid)
}

//verif:refines P18 HausdorffDistance nopanic
func vspecHausdorff(a, b LineString, srid SRID) float64 {
	if a.Length() == 0 || b.Length() == 0 {
		return INF
	}
	worst := 0.0
	for i := range a {
		near := INF
		for j := range b {
			if d := PointDistance(a[i], b[j], srid); d < near {
				near = d
			}
		}
		if near > worst && near != INF {
			worst = near
		}
	}
	for i := range b {
		near := INF
		for j := range a {
			if d := PointDistance(b[i], a[j], srid); d < near {
				near = d
			}
		}
		if near > worst && near != INF {
			worst = near
		}
	}
	return worst
}

// ---- P20: area and centroid

func vTwiceArea(r LinearRing) float64 {
	n := len(r) - 1
	s := 0.0
	for i := 0; i < n; i++ {
		j := i + 1
		if j == n {
			j = 0
		}
		s += r[i].X*r[j].Y - r[j].X*r[i].Y
	}
	return s
}

func vArea(p Polygon) float64 {
	if len(p) == 0 {
		return 0
	}
	return math.Abs(vTwiceArea(p[0]) / 2)
}

//verif:refines P20 GetArea nopanic
func vspecArea(g Geometry) float64 {
	switch g := g.(type) {
	case Polygon:
		return vArea(g)
	case MultiPolygon:
		s := 0.0
		for i := range g {
			s += vArea(g[i])
		}
		return s
	}
	return 0
}

//verif:refines P20 MultiPolyArea nopanic
func vspecMultiArea(m MultiPolygon) float64 {
	s := 0.0
	for i := range m {
		s += vArea(m[i])
	}
	return s
}

//verif:refines P20 Polygon.IsCCW nopanic
func vspecCCW(p Polygon) bool { return len(p) > 0 && vTwiceArea(p[0]) > 0 }

//verif:refines P20 Area2 nopanic
func vspecArea2(a, b, c Point) float64 {
	return a.X*(b.Y-c.Y) + b.X*(c.Y-a.Y) + c.X*(a.Y-b.Y)
}

func vRingCentroid(r LinearRing) Point {
	n := len(r) - 1
	var x, y, s float64
	for i := 0; i < n; i++ {
		j := i + 1
		if j == n {
			j = 0
		}
		w := r[i].X*r[j].Y - r[j].X*r[i].Y
		x += (r[i].X + r[j].X) * w
		y += (r[i].Y + r[j].Y) * w
		s += w
	}
	if s == 0 {
		return Point{math.NaN(), math.NaN()}
	}
	return Point{x / (3 * s), y / (3 * s)}
}

//verif:refines P20 LinearCentroid nopanic
func vspecLinearCentroid(r LinearRing) Point {
	if r == nil {
		return Point{math.NaN(), math.NaN()}
	}
	return vRingCentroid(r)
}

//verif:refines P20 Centroid nopanic
func vspecCentroid(g Geometry) Point {
	switch g := g.(type) {
	case Point:
		return g
	case MultiPoint:
		if len(g) == 0 {
			return Point{}
		}
		var x, y float64
		for _, p := range g {
			x += p.X
			y += p.Y
		}
		return Point{x / float64(len(g)), y / float64(len(g))}
	case LineString:
		r := NewRingFromLine(g)
		if r == nil {
			return Point{math.NaN(), math.NaN()}
		}
		return vRingCentroid(*r)
	case Polygon:
		if len(g) == 0 || g[0] == nil {
			return Point{math.NaN(), math.NaN()}
		}
		return vRingCentroid(g[0])
	}
	return Point{}
}

// ---- P23: angles and directions

//verif:refines P23 GetAzimuth nopanic
func vspecAzimuth(p, q Point, srid SRID) float64 {
	if srid != 4326 {
		return 0
	}
	dl := q.X*math.Pi/180 - p.X*math.Pi/180
	f1, f2 := p.Y*math.Pi/180, q.Y*math.Pi/180
	a := math.Atan2(math.Cos(f2)*math.Sin(dl), math.Cos(f1)*math.Sin(f2)-math.Sin(f1)*math.Cos(f2)*math.Cos(dl))
	return math.Mod(a*180/math.Pi+360, 360)
}

//verif:refines P23 DestinationPoint nopanic
func vspecDestination(lat, lon, distance, bearing float64) (float64, float64) {
	d := distance / 6371000
	b := bearing * math.Pi / 180
	f := lat * math.Pi / 180
	g := math.Asin(math.Sin(f)*math.Cos(d) + math.Cos(f)*math.Sin(d)*math.Cos(b))
	l := lon*math.Pi/180 + math.Atan2(math.Sin(b)*math.Sin(d)*math.Cos(f), math.Cos(d)-math.Sin(f)*math.Sin(g))
	return g * 180 / math.Pi, math.Mod(l*180/math.Pi+540, 360) - 180
}

//verif:refines P23 CacAngle nopanic
func vspecAngle(a, c, b Point) (float64, error) {
	v, u := Vector2{c.X - a.X, c.Y - a.Y}, Vector2{c.X - b.X, c.Y - b.Y}
	if math.Sqrt(v.X*v.X+v.Y*v.Y)*math.Sqrt(u.X*u.X+u.Y*u.Y) == 0 {
		return 0, errors.New("repeated")
	}
	t := math.Atan2(u.Y, u.X) - math.Atan2(v.Y, v.X)
	if t < 0 {
		t += 2 * math.Pi
	}
	return t, nil
}

//verif:refines P23 CacQuadrantAngle nopanic
func vspecQuadrantAngle(a, b Point) (float64, error) {
	return vspecAngle(Point{a.X + 0.0000001, a.Y}, a, b)
}

//verif:refines P23 CacConvex nopanic
func vspecConvex(a, b, c Point) (int8, error) {
	t, err := vspecAngle(a, b, c)
	if err != nil {
		return -1, err
	}
	if s := math.Sin(t); s < 0 {
		return 0, nil
	} else if s > 0 {
		return 1, nil
	}
	return 2, nil
}

func vRot(p, c Point, a float64) Point {
	dx, dy := p.X-c.X, p.Y-c.Y
	x := dx*math.Cos(a) + dy*math.Sin(a) + c.X
	y := dy*math.Cos(a) - dx*math.Sin(a) + c.Y
	return Point{math.Trunc(x*10000) / 10000, math.Trunc(y*10000) / 10000}
}

func vpreGeom(g Geometry, c Point, a float64) bool {
	switch g.(type) {
	case Point, MultiPoint, LineString, MultiLineString, Polygon, MultiPolygon,
		PointZ, MultiPointZ, LineStringZ, MultiLineStringZ, PolygonZ, MultiPolygonZ:
		return true
	}
	return false
}

func vRotGeom(g Geometry, c Point, a float64) Geometry {
	switch g := g.(type) {
	case Point:
		return vRot(g, c, a)
	case Polygon:
		var ps []Point
		if len(g) > 0 {
			for _, p := range g[0] {
				ps = append(ps, vRot(p, c, a))
			}
		}
		return *NewPolygonFromPois(ps...)
	}
	return nil
}

//verif:refines P23 RotateCW nopanic pre=vpreGeom
func vspecRotateCW(g Geometry, c Point, a float64) Geometry { return vRotGeom(g, c, a) }

//verif:refines P23 RotateCCW nopanic pre=vpreGeom
func vspecRotateCCW(g Geometry, c Point, a float64) Geometry { return vRotGeom(g, c, -a) }

// ---- P34: vectors

//verif:refines P34 ConvertPointToVector nopanic
func vspecVecOf(p, q Point) *Vector2 { return &Vector2{q.X - p.X, q.Y - p.Y} }

//verif:refines P34 ConvertSegToVector nopanic
func vspecVecOfSeg(s LineSegment) *Vector2 {
	return &Vector2{s.End.X - s.Start.X, s.End.Y - s.Start.Y}
}

//verif:refines P34 NewVector2 nopanic
func vspecNewVec(x, y float64) *Vector2 { return &Vector2{x, y} }

//verif:refines P34 Vector2.Clone nopanic
func vspecVecClone(v *Vector2) *Vector2 { return &Vector2{v.X, v.Y} }

//verif:refines P34 Vector2.Add nopanic
func vspecVecAdd(v, w Vector2) Vector2 { return Vector2{v.X + w.X, v.Y + w.Y} }

//verif:refines P34 Vector2.Sub nopanic
func vspecVecSub(v, w Vector2) Vector2 { return Vector2{v.X - w.X, v.Y - w.Y} }

//verif:refines P34 Add nopanic
func vspecVecAddF(v, w Vector2) Vector2 { return Vector2{v.X + w.X, v.Y + w.Y} }

//verif:refines P34 Vector2.Multiply nopanic
func vspecVecMul(v *Vector2, s float64) { v.X, v.Y = v.X*s, v.Y*s }

func vpreNonZero(v *Vector2, s float64) bool { return s != 0 }

//verif:refines P34 Vector2.Divide nopanic pre=vpreNonZero
func vspecVecDiv(v *Vector2, s float64) { v.X, v.Y = v.X/s, v.Y/s }

//verif:refines P34 Vector2.Dot nopanic
func vspecVecDot(v *Vector2, w Vector2) float64 { return v.X*w.X + v.Y*w.Y }

//verif:refines P34 Vector2.Cross nopanic
func vspecVecCross(v *Vector2, w Vector2) float64 { return v.X*w.Y - w.X*v.Y }

//verif:refines P34 Vector2.Length nopanic
func vspecVecLen(v *Vector2) float64 { return math.Sqrt(v.X*v.X + v.Y*v.Y) }

//verif:refines P34 Vector2.LengthSq nopanic
func vspecVecLenSq(v *Vector2) float64 { return v.X*v.X + v.Y*v.Y }

func vpreUnit(v *Vector2) bool { return math.Sqrt(v.X*v.X+v.Y*v.Y) != 0 }

//verif:refines P34 Vector2.Normalize nopanic pre=vpreUnit
func vspecVecNorm(v *Vector2) {
	n := math.Sqrt(v.X*v.X + v.Y*v.Y)
	v.X, v.Y = v.X/n, v.Y/n
}

func vpreUnitF(v Vector2) bool { return math.Sqrt(v.X*v.X+v.Y*v.Y) != 0 }

//verif:refines P34 Normalize nopanic pre=vpreUnitF
func vspecVecNormF(v Vector2) *Vector2 {
	n := math.Sqrt(v.X*v.X + v.Y*v.Y)
	return &Vector2{v.X / n, v.Y / n}
}

// ---- P29/P16 companions: setters and plain constructors

//verif:refines P34 NewPoint nopanic
func vspecNewPoint(x, y float64) *Point { return &Point{x, y} }

//verif:refines P34 NewPointZ nopanic
func vspecNewPointZ(x, y, z float64) *PointZ { return &PointZ{x, y, z} }

//verif:refines P34 Point.SetX nopanic
func vspecSetX(p *Point, x float64) { p.X = x }

//verif:refines P34 Point.SetY nopanic
func vspecSetY(p *Point, x float64) { p.Y = x }

//verif:refines P34 PointZ.SetX nopanic
func vspecSetXZ(p *PointZ, x float64) { p.X = x }

//verif:refines P34 PointZ.SetY nopanic
func vspecSetYZ(p *PointZ, x float64) { p.Y = x }

//verif:refines P34 PointZ.SetZ nopanic
func vspecSetZZ(p *PointZ, x float64) { p.Z = x }

func vanyOnEdge(p Point, poly Polygon) bool  { return false }
func vanyEnclosed(p Point, poly Polygon) bool { return false }

// vctrPointIn: one of the three relations of a point to a polygon.
func vctrPointIn(p Point, poly Polygon) GeometryRealation {
	if vanyOnEdge(p, poly) {
		return RELA_TOUCH
	}
	if vanyEnclosed(p, poly) {
		return RELA_CONTAIN
	}
	return RELA_DISJOINT
}

//verif:law P18 polygon-distance-five via=PointToSegmentDistance:vanySegDist via=IsPointInPolygon:vctrPointIn unroll=8 unfold=5
func vlawPolygonDistance(p, a, b, c, d, e Point, srid SRID) (float64, float64) {
	poly := Polygon{{a, b, c, d, e, a}}
	best := INF
	for _, s := range [][2]Point{{a, b}, {b, c}, {c, d}, {d, e}, {e, a}} {
		if x, _ := vanySegDist(p, s[0], s[1], srid); x < best {
			best = x
		}
	}
	if vanyOnEdge(p, poly) || vanyEnclosed(p, poly) {
		best = 0
	}
	return PointPolygonDistance(p, poly, srid), best
}
