package geo

// ---- P38: sorting the points of a hull moves whole points

//verif:refines P38 hullPts.Swap frame
func vspecHullSwap(p hullPts, i, j int) {
	a, b := p[i], p[j]
	p[i] = b
	p[j] = a
}

//verif:refines P38 hullPts.Len
func vspecHullLen(p hullPts) int { return len(p) }
