package geo

import "sort"

// ---- P38: the convex hull is the Graham scan from the lowest point

//verif:refines P38 hullPts.FindLowestPoint frame
func vspecLowest(p hullPts) {
	m := 0
	for i := 1; i < len(p); i++ {
		if p[i].Y < p[m].Y || p[i].Y == p[m].Y && p[i].X > p[m].X {
			m = i
		}
	}
	if len(p) == 0 {
		panic("no points")
	}
	p[0], p[m] = p[m], p[0]
}

func vabs(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

//verif:refines P38 hullOrder.Less
func vspecHullLess(h hullOrder, i, j int) bool {
	a, b := h.hullPts[i], h.hullPts[j]
	ax, ay, bx, by := a.X-h.pivot.X, a.Y-h.pivot.Y, b.X-h.pivot.X, b.Y-h.pivot.Y
	turn := ax*by - bx*ay
	return turn > 0 || turn == 0 && (vabs(ax) < vabs(bx) || vabs(ay) < vabs(by))
}

func vhull(pts []Point) []Point {
	p := append(hullPts{}, pts...)
	p.FindLowestPoint()
	sort.Sort(hullOrder{p[1:], p[0]})
	return p
}

func vanyArea(a, b, c Point) float64 { return 0 }

// vscan drops from the hull so far what lies right of the way to the next point.
func vscan(p []Point) []Point {
	st := []Point{p[0]}
	for _, q := range p[1:] {
		for len(st) > 1 && st[len(st)-1] != q && vanyArea(st[len(st)-2], st[len(st)-1], q) < 0 {
			st = st[:len(st)-1]
		}
		if st[len(st)-1] != q {
			st = append(st, q)
		}
	}
	if len(st) < 3 {
		return nil
	}
	return st
}

func vring(st []Point) Polygon {
	if st == nil {
		return nil
	}
	return *NewPolygonFromPois(st...)
}

//verif:law P38 hull-of-two
func vlawHull2(a, b Point) (int, int, int, int, int, int) {
	return len(ConvexHull()), len(ConvexHull(a)), len(ConvexHull(a, b)), 0, 0, 0
}

//verif:law P38 hull-of-three via=Area2:vanyArea unroll=6
func vlawHull3(a, b, c Point) (Polygon, Polygon) {
	return ConvexHull(a, b, c), vring(vscan(vhull([]Point{a, b, c})))
}

// vctrInPlace: with the lowest point first already.
func vctrInPlace(p hullPts) {}

func vctrRaw(pts ...Point) *Polygon { return &Polygon{append(LinearRing{}, pts...)} }

//verif:law P38 hull-of-four via=Area2:vanyArea via=hullPts.FindLowestPoint:vctrInPlace via=NewPolygonFromPois:vctrRaw unroll=8
func vlawHull4(a, b, c, d Point) (Polygon, Polygon) {
	p := vhull([]Point{a, b, c, d})
	if p[0] == p[1] || p[0] == p[2] || p[0] == p[3] || p[1] == p[2] || p[1] == p[3] || p[2] == p[3] {
		return nil, nil
	}
	st := vscan(p)
	if st == nil {
		return ConvexHull(a, b, c, d), nil
	}
	return ConvexHull(a, b, c, d), *vctrRaw(st...)
}
