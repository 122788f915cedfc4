package geo

//verif:refines P15 Box.Contain nopanic
func vspecBoxContain(b *Box, o *Box) bool {
	return b.MinX <= o.MinX && b.MinY <= o.MinY && o.MaxX <= b.MaxX && o.MaxY <= b.MaxY
}

//verif:refines P15 Box.Intersect nopanic
func vspecBoxIntersect(b *Box, o *Box) bool {
	return b.MinX <= o.MaxX && o.MinX <= b.MaxX && b.MinY <= o.MaxY && o.MinY <= b.MaxY
}

func vpreNoBox(b *Box, o *Box) bool { return b == nil || o == nil }

//verif:refines P15 Box.Intersect nopanic nilable pre=vpreNoBox
func vspecNoBoxIntersect(b *Box, o *Box) bool { return false }

//verif:refines P15 Box.Union nopanic
func vspecBoxUnion(b *Box, o *Box) *Box {
	u := *b
	if o.MinX < u.MinX {
		u.MinX = o.MinX
	}
	if o.MinY < u.MinY {
		u.MinY = o.MinY
	}
	if o.MaxX > u.MaxX {
		u.MaxX = o.MaxX
	}
	if o.MaxY > u.MaxY {
		u.MaxY = o.MaxY
	}
	return &u
}

//verif:refines P15 Box.Size nopanic
func vspecBoxSize(b *Box) float64 { return (b.MaxX - b.MinX) * (b.MaxY - b.MinY) }

//verif:refines P15 IsPointInBox nopanic
func vspecIsPointInBox(b *Box, p Point) bool {
	return b.MinX <= p.X && p.X <= b.MaxX && b.MinY <= p.Y && p.Y <= b.MaxY
}

//verif:refines P15 NewBox nopanic
func vspecNewBox(a, b, c, d float64) *Box { return &Box{a, b, c, d} }

//verif:refines P15 NewRectBox nopanic
func vspecNewRectBox(p Point, x, y float64) *Box {
	return &Box{p.X - x, p.Y - y, p.X + x, p.Y + y}
}

// vBoxPoints: the positions BoundingBox is about.
func vBoxPoints(g Geometry) []Point {
	var ps []Point
	switch g := g.(type) {
	case Point:
		ps = []Point{g}
	case MultiPoint:
		ps = g
	case LineString:
		ps = g
	case MultiLineString:
		for _, l := range g {
			ps = append(ps, l...)
		}
	case Polygon:
		if len(g) > 0 {
			ps = g[0]
		}
	case MultiPolygon:
		for _, l := range g {
			for _, r := range l {
				ps = append(ps, r...)
			}
		}
	}
	return ps
}

func vpreBoxPoints(g Geometry) bool { return len(vBoxPoints(g)) > 0 }

//verif:refines P16 BoundingBox nopanic pre=vpreBoxPoints
func vspecBoundingBox(g Geometry) *Box {
	ps := vBoxPoints(g)
	b := Box{ps[0].X, ps[0].Y, ps[0].X, ps[0].Y}
	for _, p := range ps {
		if p.X < b.MinX {
			b.MinX = p.X
		}
		if p.Y < b.MinY {
			b.MinY = p.Y
		}
		if p.X > b.MaxX {
			b.MaxX = p.X
		}
		if p.Y > b.MaxY {
			b.MaxY = p.Y
		}
	}
	return &b
}

func vOf(ps ...Point) *Box {
	b := Box{ps[0].X, ps[0].Y, ps[0].X, ps[0].Y}
	for _, p := range ps[1:] {
		if p.X < b.MinX {
			b.MinX = p.X
		}
		if p.X > b.MaxX {
			b.MaxX = p.X
		}
		if p.Y < b.MinY {
			b.MinY = p.Y
		}
		if p.Y > b.MaxY {
			b.MaxY = p.Y
		}
	}
	return &b
}

//verif:law P16 box-of-holed-polygon unroll=8
func vlawBoxHoles(a, b, c, d, e Point) (*Box, *Box) {
	return BoundingBox(Polygon{{a, b, c}, {d, e}}), vOf(a, b, c)
}

//verif:law P16 box-of-lines unroll=8
func vlawBoxLines(a, b, c, d Point) (*Box, *Box) {
	return BoundingBox(MultiLineString{{a, b}, {c, d}}), vOf(a, b, c, d)
}

//verif:law P16 box-of-polygons unroll=8
func vlawBoxPolygons(a, b, c, d Point) (*Box, *Box) {
	return BoundingBox(MultiPolygon{{{a, b}, {c}}, {{d}}}), vOf(a, b, c, d)
}

//verif:law P16 box-of-line-and-points unroll=8
func vlawBoxLine(a, b, c, d Point) (*Box, *Box, *Box, *Box, *Box, *Box) {
	return BoundingBox(LineString{a, b, c, d}), BoundingBox(MultiPoint{a, b, c}), BoundingBox(a), vOf(a, b, c, d), vOf(a, b, c), vOf(a)
}
