package geo

import "errors"

// ---- P04: vertex lists as exact sequences

//verif:refines P04 NewLineString nopanic
func vspecNewLineString(ps ...Point) *LineString {
	l := make(LineString, 0, len(ps))
	l = append(l, ps...)
	return &l
}

//verif:refines P04 NewLineStringZ nopanic
func vspecNewLineStringZ(ps ...PointZ) *LineStringZ {
	l := make(LineStringZ, 0, len(ps))
	l = append(l, ps...)
	return &l
}

//verif:refines P04 NewMultiPoint nopanic
func vspecNewMultiPoint(ps ...Point) *MultiPoint {
	var l MultiPoint
	l = append(l, ps...)
	return &l
}

//verif:refines P04 NewMultiPointZ nopanic
func vspecNewMultiPointZ(ps ...PointZ) *MultiPointZ {
	var l MultiPointZ
	l = append(l, ps...)
	return &l
}

//verif:refines P04 NewMultiLineString nopanic
func vspecNewMultiLineString(ps ...LineString) *MultiLineString {
	var l MultiLineString
	l = append(l, ps...)
	return &l
}

//verif:refines P04 NewMultiLineStringZ nopanic
func vspecNewMultiLineStringZ(ps ...LineStringZ) *MultiLineStringZ {
	var l MultiLineStringZ
	l = append(l, ps...)
	return &l
}

//verif:refines P04 NewPolygon nopanic
func vspecNewPolygon(ps ...LinearRing) *Polygon {
	var l Polygon
	l = append(l, ps...)
	return &l
}

//verif:refines P04 NewPolygonZ nopanic
func vspecNewPolygonZ(ps ...LinearRingZ) *PolygonZ {
	var l PolygonZ
	l = append(l, ps...)
	return &l
}

//verif:refines P04 NewMultiPolygon nopanic
func vspecNewMultiPolygon(ps ...Polygon) *MultiPolygon {
	var l MultiPolygon
	l = append(l, ps...)
	return &l
}

//verif:refines P04 NewMultiPolygonZ nopanic
func vspecNewMultiPolygonZ(ps ...PolygonZ) *MultiPolygonZ {
	var l MultiPolygonZ
	l = append(l, ps...)
	return &l
}

//verif:refines P04 LineString.GetPointCount nopanic
func vspecLineCount(l LineString) int { return len(l) }

//verif:refines P04 LineStringZ.GetPointCount nopanic
func vspecLineZCount(l LineStringZ) int { return len(l) }

//verif:refines P04 LinearRing.GetPointCount nopanic
func vspecRingCount(l LinearRing) int { return len(l) }

//verif:refines P04 LinearRingZ.GetPointCount nopanic
func vspecRingZCount(l LinearRingZ) int { return len(l) }

//verif:refines P04 LineString.GetPointSet nopanic
func vspecLineSet(l LineString) []Point { return l }

//verif:refines P04 LineStringZ.GetPointSet nopanic
func vspecLineZSet(l LineStringZ) []PointZ { return l }

//verif:refines P04 LinearRing.GetPointSet nopanic
func vspecRingSet(l LinearRing) []Point { return l }

//verif:refines P04 LinearRingZ.GetPointSet nopanic
func vspecRingZSet(l LinearRingZ) []PointZ { return l }

//verif:refines P04 MultiPoint.GetPointSet nopanic
func vspecMultiPointSet(l MultiPoint) []Point { return l }

//verif:refines P04 MultiPointZ.GetPointSet nopanic
func vspecMultiPointZSet(l MultiPointZ) []PointZ { return l }

//verif:refines P04 LinearRing.ToLineString nopanic
func vspecRingToLine(l LinearRing) LineString { return LineString(l) }

//verif:refines P04 LinearRingZ.ToLineString nopanic
func vspecRingZToLine(l LinearRingZ) LineStringZ { return LineStringZ(l) }

//verif:refines P04 LineString.Append nopanic
func vspecLineAppend(l *LineString, p Point) error {
	n := make(LineString, 0, len(*l)+1)
	n = append(n, *l...)
	n = append(n, p)
	*l = n
	return nil
}

//verif:refines P04 LineStringZ.Append nopanic
func vspecLineZAppend(l *LineStringZ, p PointZ) error {
	n := make(LineStringZ, 0, len(*l)+1)
	n = append(n, *l...)
	n = append(n, p)
	*l = n
	return nil
}

//verif:refines P04 MultiPoint.Append nopanic
func vspecMultiPointAppend(l *MultiPoint, p Point) {
	n := make(MultiPoint, 0, len(*l)+1)
	n = append(n, *l...)
	*l = append(n, p)
}

//verif:refines P04 MultiPointZ.Append nopanic
func vspecMultiPointZAppend(l *MultiPointZ, p PointZ) {
	n := make(MultiPointZ, 0, len(*l)+1)
	n = append(n, *l...)
	*l = append(n, p)
}

func vpreInRange(l *LineString, i int, p Point) bool { return 0 <= i && i < len(*l) }

func vpreInRangeEnd(l *LineString, i int, p Point) bool { return 0 <= i && i <= len(*l) }

func vpreInRangeDel(l *LineString, i int) bool { return 0 <= i && i < len(*l) }

//verif:refines P04 LineString.SetPoint nopanic pre=vpreInRange
func vspecLineSetPoint(l *LineString, i int, p Point) error {
	n := make(LineString, 0, len(*l))
	n = append(n, (*l)[:i]...)
	n = append(n, p)
	n = append(n, (*l)[i+1:]...)
	*l = n
	return nil
}

//verif:refines P04 LineString.InsertPoint nopanic pre=vpreInRangeEnd
func vspecLineInsertPoint(l *LineString, i int, p Point) error {
	n := make(LineString, 0, len(*l)+1)
	n = append(n, (*l)[:i]...)
	n = append(n, p)
	n = append(n, (*l)[i:]...)
	*l = n
	return nil
}

//verif:refines P04 LineString.DelPoint nopanic pre=vpreInRangeDel
func vspecLineDelPoint(l *LineString, i int) error {
	n := make(LineString, 0, len(*l))
	n = append(n, (*l)[:i]...)
	n = append(n, (*l)[i+1:]...)
	*l = n
	return nil
}

//verif:refines P04 LineString.Reverse nopanic
func vspecLineReverse(l *LineString) {
	n := make(LineString, 0, len(*l))
	for i := len(*l) - 1; i >= 0; i-- {
		n = append(n, (*l)[i])
	}
	*l = n
}

//verif:refines P04 LineStringZ.Reverse nopanic
func vspecLineZReverse(l *LineStringZ) {
	n := make(LineStringZ, 0, len(*l))
	for i := len(*l) - 1; i >= 0; i-- {
		n = append(n, (*l)[i])
	}
	*l = n
}

func vpreSplit(l LineString, i int) bool { return 0 <= i && i < len(l) }

//verif:refines P04 LineString.SplitByIndex nopanic pre=vpreSplit
func vspecLineSplit(l LineString, i int) (LineString, LineString) {
	var a, b LineString
	a = append(a, l[:i+1]...)
	b = append(b, l[i:]...)
	return a, b
}

//verif:refines P04 LineString.GetFirstPoint nopanic
func vspecLineFirst(l LineString) *Point {
	if len(l) >= 2 {
		return &l[0]
	}
	return nil
}

//verif:refines P04 LineString.GetEndPoint nopanic
func vspecLineEnd(l LineString) *Point {
	if len(l) >= 2 {
		return &l[len(l)-1]
	}
	return nil
}

//verif:refines P04 LineStringZ.GetFirstPoint nopanic
func vspecLineZFirst(l LineStringZ) PointZ {
	if len(l) >= 2 {
		return l[0]
	}
	return PointZ{}
}

//verif:refines P04 LineStringZ.GetEndPoint nopanic
func vspecLineZEnd(l LineStringZ) PointZ {
	if len(l) >= 2 {
		return l[len(l)-1]
	}
	return PointZ{}
}

func vpreGet(l LineString, i int) bool { return 0 <= i && i < len(l) }

//verif:refines P04 LineString.GetPoint nopanic pre=vpreGet
func vspecLineGet(l LineString, i int) *Point { return &l[i] }

// ---- polygons as ring lists

//verif:refines P04 Polygon.GetExteriorRing nopanic
func vspecPolyExt(p Polygon) LinearRing {
	if len(p) > 0 {
		return p[0]
	}
	return nil
}

//verif:refines P04 PolygonZ.GetExteriorRing nopanic
func vspecPolyZExt(p PolygonZ) LinearRingZ {
	if len(p) > 0 {
		return p[0]
	}
	return nil
}

//verif:refines P04 Polygon.GetInteriorRing nopanic
func vspecPolyInt(p Polygon) []LinearRing {
	if len(p) > 0 {
		return p[1:]
	}
	return nil
}

//verif:refines P04 PolygonZ.GetInteriorRing nopanic
func vspecPolyZInt(p PolygonZ) []LinearRingZ {
	if len(p) > 0 {
		return p[1:]
	}
	return nil
}

//verif:refines P04 Polygon.GetExteriorPoints nopanic
func vspecPolyExtPts(p Polygon) []Point {
	if len(p) > 0 {
		return p[0]
	}
	return nil
}

//verif:refines P04 PolygonZ.GetExteriorPoints nopanic
func vspecPolyZExtPts(p PolygonZ) []PointZ {
	if len(p) > 0 {
		return p[0]
	}
	return nil
}

//verif:refines P04 Polygon.SetExteriorRing nopanic
func vspecPolySetExt(p *Polygon, r LinearRing) {
	var n Polygon
	n = append(n, r)
	if len(*p) > 0 {
		n = append(n, (*p)[1:]...)
	}
	*p = n
}

//verif:refines P04 PolygonZ.SetExteriorRing nopanic
func vspecPolyZSetExt(p *PolygonZ, r LinearRingZ) {
	var n PolygonZ
	n = append(n, r)
	if len(*p) > 0 {
		n = append(n, (*p)[1:]...)
	}
	*p = n
}

//verif:refines P04 Polygon.AddInteriorRing nopanic
func vspecPolyAddInt(p *Polygon, r LinearRing) {
	var n Polygon
	n = append(n, *p...)
	*p = append(n, r)
}

//verif:refines P04 PolygonZ.AddInteriorRing nopanic
func vspecPolyZAddInt(p *PolygonZ, r LinearRingZ) {
	var n PolygonZ
	n = append(n, *p...)
	*p = append(n, r)
}

//verif:refines P04 MultiPolygon.AddPolygon nopanic
func vspecMultiPolyAdd(p *MultiPolygon, r Polygon) {
	var n MultiPolygon
	n = append(n, *p...)
	*p = append(n, r)
}

//verif:refines P04 MultiPolygonZ.AddPolygonZ nopanic
func vspecMultiPolyZAdd(p *MultiPolygonZ, r PolygonZ) {
	var n MultiPolygonZ
	n = append(n, *p...)
	*p = append(n, r)
}

// ---- equality

//verif:refines P32 Point.Equal nopanic
func vspecPointEqual(p Point, q Point) bool {
	dx, dy := p.X-q.X, p.Y-q.Y
	return dx < COORDPRESION && -dx < COORDPRESION && dy < COORDPRESION && -dy < COORDPRESION
}

//verif:refines P32 PointZ.Equal nopanic
func vspecPointZEqual(p PointZ, q PointZ) bool {
	dx, dy, dz := p.X-q.X, p.Y-q.Y, p.Z-q.Z
	return dx < COORDPRESION && -dx < COORDPRESION && dy < COORDPRESION && -dy < COORDPRESION && dz < COORDPRESION && -dz < COORDPRESION
}

//verif:refines P32 LineString.Equal nopanic
func vspecLineEqual(l LineString, m LineString) bool {
	if len(l) != len(m) {
		return false
	}
	for i := range l {
		if !l[i].Equal(m[i]) {
			return false
		}
	}
	return true
}

//verif:refines P32 LineStringZ.Equal nopanic
func vspecLineZEqual(l LineStringZ, m LineStringZ) bool {
	if len(l) != len(m) {
		return false
	}
	for i := range l {
		if !l[i].Equal(m[i]) {
			return false
		}
	}
	return true
}

//verif:refines P32 Vector2.Equal nopanic
func vspecVectorEqual(v *Vector2, w Vector2) bool { return v.X == w.X && v.Y == w.Y }

// ---- P05: positions outside the line are reported

func vpreOutSet(l *LineString, i int, p Point) bool { return i < 0 || i > len(*l) }

func vpreOutDel(l *LineString, i int) bool { return i < 0 || i >= len(*l) }

func vpreOutGet(l LineString, i int) bool { return i < 0 || i >= len(l) }

//verif:refines P05 LineString.SetPoint nopanic pre=vpreOutSet
func vspecOutSet(l *LineString, i int, p Point) error { return errors.New("out") }

//verif:refines P05 LineString.InsertPoint nopanic pre=vpreOutSet
func vspecOutInsert(l *LineString, i int, p Point) error { return errors.New("out") }

//verif:refines P05 LineString.DelPoint nopanic pre=vpreOutDel
func vspecOutDel(l *LineString, i int) error { return errors.New("out") }

//verif:refines P05 LineString.GetPoint nopanic pre=vpreOutGet
func vspecOutGet(l LineString, i int) *Point { return nil }

//verif:refines P05 LineString.Verify nopanic
func vspecLineVerify(l LineString) error {
	if len(l) < 2 {
		return errors.New("out")
	}
	return nil
}

//verif:nopanic P05 Polygon.GetExteriorRing
//verif:nopanic P05 PolygonZ.GetExteriorRing
func vspecP05a() {}

// ---- P19: rings are closed

//verif:refines P19 NewRingFromLine nopanic
func vspecNewRingFromLine(l LineString) *LinearRing {
	n := len(l)
	if n < 2 {
		return nil
	}
	var r LinearRing
	r = append(r, l...)
	if !l[0].Equal(l[n-1]) {
		r = append(r, l[0])
	}
	return &r
}

//verif:refines P19 NewRingFromLineZ nopanic
func vspecNewRingFromLineZ(l LineStringZ) *LinearRingZ {
	n := len(l)
	if n < 2 {
		return nil
	}
	var r LinearRingZ
	r = append(r, l...)
	if !l[0].Equal(l[n-1]) {
		r = append(r, l[0])
	}
	return &r
}

//verif:refines P19 NewLinearRing nopanic
func vspecNewLinearRing(l ...Point) *LinearRing { return vspecNewRingFromLine(l) }

//verif:refines P19 NewLinearRingZ nopanic
func vspecNewLinearRingZ(l ...PointZ) *LinearRingZ { return vspecNewRingFromLineZ(l) }

//verif:refines P19 LineString.ToRing nopanic
func vspecToRing(l LineString) LinearRing {
	if r := vspecNewRingFromLine(l); r != nil {
		return *r
	}
	return nil
}

//verif:refines P19 LineStringZ.ToRing nopanic
func vspecToRingZ(l LineStringZ) LinearRingZ {
	if r := vspecNewRingFromLineZ(l); r != nil {
		return *r
	}
	return nil
}

//verif:refines P19 NewPolygonFromPois nopanic
func vspecNewPolygonFromPois(l ...Point) *Polygon {
	var p Polygon
	if r := vspecNewRingFromLine(l); r != nil {
		p = append(p, *r)
	}
	return &p
}

//verif:refines P19 NewPolygonZFromPois nopanic
func vspecNewPolygonZFromPois(l ...PointZ) *PolygonZ {
	var p PolygonZ
	if r := vspecNewRingFromLineZ(l); r != nil {
		p = append(p, *r)
	}
	return &p
}

//verif:refines P19 BoxToGeo nopanic
func vspecBoxToGeo(b Box) Geometry {
	lo, hi := Point{b.MinX, b.MinY}, Point{b.MaxX, b.MaxY}
	tl, br := Point{b.MinX, b.MaxY}, Point{b.MaxX, b.MinY}
	if lo.Equal(hi) {
		return lo
	}
	if lo.Equal(tl) {
		return LineString{lo, hi}
	}
	if tl.Equal(hi) {
		return LineString{lo, tl}
	}
	return Polygon{LinearRing{lo, tl, hi, br, lo}}
}
