package geo

// ---- P28: sorting the entries of a bulk load moves whole entries

//verif:refines P28 dimSorter.Swap frame
func vspecDimSwap(s *dimSorter, i, j int) {
	a, b := s.objs[i], s.objs[j]
	s.objs[i] = b
	s.objs[j] = a
}

//verif:refines P28 dimSorter.Len
func vspecDimLen(s *dimSorter) int { return len(s.objs) }
