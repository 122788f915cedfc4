package geo

// ---- P29: line simplification is Douglas–Peucker

func vanySegDist(p, a, b Point, srid SRID) (float64, Point) { return 0, Point{} }

// vkept is what remains strictly between two kept vertices: nothing if all of
// them are within the threshold of the segment, else the farthest (the first
// of several) and what remains on both sides of it.
func vkept(line LineString, lo, hi int, threshold float64, srid SRID) []Point {
	far, at := 0.0, lo
	for i := lo + 1; i < hi; i++ {
		d, _ := vanySegDist(line[i], line[lo], line[hi], srid)
		if d > far {
			far, at = d, i
		}
	}
	if !(far > threshold) {
		return nil
	}
	r := append([]Point{}, vkept(line, lo, at, threshold, srid)...)
	r = append(r, line[at])
	return append(r, vkept(line, at, hi, threshold, srid)...)
}

func vsimple(line LineString, threshold float64, srid SRID) LineString {
	r := LineString{line[0]}
	r = append(r, vkept(line, 0, len(line)-1, threshold, srid)...)
	return append(r, line[len(line)-1])
}

//verif:law P29 simplify-short unroll=4
func vlawSimple2(a, b Point, threshold float64, srid SRID) (LineString, LineString, int, LineString, LineString, int) {
	if !(threshold >= 0) {
		return nil, nil, 0, nil, nil, 0
	}
	return DouglasPeuckerSimplify(LineString{a, b}, threshold, srid), DouglasPeuckerSimplify(LineString{a}, threshold, srid), len(DouglasPeuckerSimplify(nil, threshold, srid)),
		LineString{a, b}, LineString{a}, 0
}

//verif:law P29 simplify-three via=PointToSegmentDistance:vanySegDist unroll=6 unfold=4
func vlawSimple3(a, b, c Point, threshold float64, srid SRID) (LineString, LineString) {
	if !(threshold >= 0) {
		return nil, nil
	}
	return DouglasPeuckerSimplify(LineString{a, b, c}, threshold, srid), vsimple(LineString{a, b, c}, threshold, srid)
}

//verif:law P29 simplify-four via=PointToSegmentDistance:vanySegDist unroll=8 unfold=4
func vlawSimple4(a, b, c, d Point, threshold float64, srid SRID) (LineString, LineString) {
	if !(threshold >= 0) {
		return nil, nil
	}
	return DouglasPeuckerSimplify(LineString{a, b, c, d}, threshold, srid), vsimple(LineString{a, b, c, d}, threshold, srid)
}

//verif:law P29 simplify-five via=PointToSegmentDistance:vanySegDist unroll=10 unfold=5
func vlawSimple5(a, b, c, d, e Point, threshold float64, srid SRID) (LineString, LineString) {
	if !(threshold >= 0) {
		return nil, nil
	}
	return DouglasPeuckerSimplify(LineString{a, b, c, d, e}, threshold, srid), vsimple(LineString{a, b, c, d, e}, threshold, srid)
}
