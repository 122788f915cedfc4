package geo

import (
	"github.com/golang/geo/s2"
	"github.com/mmcloughlin/geohash"
)

// ---- P24: grid cells: X is the longitude, Y the latitude

//verif:refines P24 GeohashEncode nopanic
func vspecGeohashEncode(p Point, n uint, srid SRID) string {
	return geohash.EncodeWithPrecision(p.Y, p.X, n)
}

//verif:refines P24 GeohashGetCenter nopanic
func vspecGeohashCenter(h string, srid SRID) Point {
	lat, lng := geohash.DecodeCenter(h)
	return Point{X: lng, Y: lat}
}

//verif:refines P24 GeohashGetBoundary nopanic
func vspecGeohashBoundary(h string, srid SRID) Box {
	b := geohash.BoundingBox(h)
	return Box{MinX: b.MinLng, MaxX: b.MaxLng, MinY: b.MinLat, MaxY: b.MaxLat}
}

//verif:refines P24 GeohashGetAllNeighbors nopanic
func vspecGeohashNeighbors(h string, srid SRID) []string { return geohash.Neighbors(h) }

//verif:refines P24 S2GetCellID nopanic
func vspecS2CellID(p Point, level int, srid SRID) uint64 {
	if srid != 4326 {
		return 0
	}
	return uint64(s2.CellIDFromLatLng(s2.LatLngFromDegrees(p.Y, p.X)).Parent(level))
}

//verif:refines P24 S2GetCenter nopanic
func vspecS2Center(id uint64, srid SRID) *Point {
	if srid != 4326 {
		return nil
	}
	c := s2.CellID(id).LatLng()
	return &Point{X: c.Lng.Degrees(), Y: c.Lat.Degrees()}
}

//verif:refines P24 S2GetBoundary nopanic
func vspecS2Boundary(id uint64, srid SRID) []Point {
	if srid != 4326 {
		return nil
	}
	var r []Point
	for _, v := range s2.LoopFromCell(s2.CellFromCellID(s2.CellID(id))).Vertices() {
		ll := s2.LatLngFromPoint(v)
		r = append(r, Point{X: ll.Lng.Degrees(), Y: ll.Lat.Degrees()})
	}
	return r
}

//verif:refines P24 S2GetAllNeighbors nopanic
func vspecS2Neighbors(id uint64, srid SRID) []uint64 {
	if srid != 4326 {
		return nil
	}
	c := s2.CellID(id)
	var r []uint64
	for _, n := range c.AllNeighbors(c.Level()) {
		r = append(r, uint64(n))
	}
	return r
}

func vanyTurnsLeft(poly Polygon) bool { return false }

func vs2Point(p Point) s2.Point { return s2.PointFromLatLng(s2.LatLngFromDegrees(p.Y, p.X)) }

// vcover covers the loop through the vertices, counterclockwise for s2.
func vcover(start Point, level int, pts ...s2.Point) []uint64 {
	var r []uint64
	region := s2.PolygonFromLoops([]*s2.Loop{s2.LoopFromPoints(pts)})
	for _, c := range s2.SimpleRegionCovering(region, vs2Point(start), level) {
		r = append(r, uint64(c))
	}
	return r
}

//verif:law P24 covering-of-a-triangle via=Polygon.IsCCW:vanyTurnsLeft unroll=6
func vlawCover(p, q, r, h Point, level int, srid SRID) ([]uint64, []uint64) {
	poly := Polygon{LinearRing{p, q, r, p}, LinearRing{h, h, h, h}}
	got := S2RegionCoverer(poly, level, srid)
	a, b, c := vs2Point(p), vs2Point(q), vs2Point(r)
	if vanyTurnsLeft(poly) {
		return got, vcover(p, level, a, b, c, a)
	}
	return got, vcover(p, level, a, c, b, a)
}

//verif:law P24 covering-of-nothing
func vlawCoverNone(level int, srid SRID) ([]uint64, []uint64, []uint64, []uint64) {
	return S2RegionCoverer(nil, level, srid), S2RegionCoverer(Polygon{LinearRing{}}, level, srid), nil, nil
}
