package main

import (
	"math/big"
	"strconv"
)

// num is a rational that stays in machine words while it fits.
type num struct {
	n, d int64 // d > 0; used when r is nil
	r    *big.Rat
}

const numSmall = 1 << 31

func numOf(r *big.Rat) num {
	if r.Num().IsInt64() && r.Denom().IsInt64() {
		n, d := r.Num().Int64(), r.Denom().Int64()
		if n > -numSmall && n < numSmall && d < numSmall {
			return num{n: n, d: d}
		}
	}
	return num{r: r}
}

func (a num) rat() *big.Rat {
	if a.r != nil {
		return a.r
	}
	return big.NewRat(a.n, a.d)
}

func gcd64(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	if a < 0 {
		return -a
	}
	return a
}

func norm64(n, d int64) num {
	if n == 0 {
		return num{n: 0, d: 1}
	}
	if g := gcd64(n, d); g > 1 {
		n, d = n/g, d/g
	}
	if n > -numSmall && n < numSmall && d < numSmall {
		return num{n: n, d: d}
	}
	return num{r: big.NewRat(n, d)}
}

func (a num) mul(b num) num {
	if a.r == nil && b.r == nil {
		return norm64(a.n*b.n, a.d*b.d)
	}
	return numOf(new(big.Rat).Mul(a.rat(), b.rat()))
}

func (a num) add(b num) num {
	if a.r == nil && b.r == nil {
		if a.d == 1 && b.d == 1 {
			return norm64(a.n+b.n, 1)
		}
		return norm64(a.n*b.d+b.n*a.d, a.d*b.d)
	}
	return numOf(new(big.Rat).Add(a.rat(), b.rat()))
}

func (a num) sign() int {
	if a.r != nil {
		return a.r.Sign()
	}
	switch {
	case a.n < 0:
		return -1
	case a.n > 0:
		return 1
	}
	return 0
}

func (a num) neg() num {
	if a.r != nil {
		return num{r: new(big.Rat).Neg(a.r)}
	}
	return num{n: -a.n, d: a.d}
}

// invAbs is 1/|a|.
func (a num) invAbs() num {
	if a.r != nil {
		return numOf(new(big.Rat).Inv(new(big.Rat).Abs(a.r)))
	}
	if a.n < 0 {
		return num{n: a.d, d: -a.n}
	}
	return num{n: a.d, d: a.n}
}

func (a num) cmp(b num) int { return a.add(b.neg()).sign() }

func (a num) app(b []byte) []byte {
	if a.r != nil {
		return append(b, a.r.RatString()...)
	}
	b = strconv.AppendInt(b, a.n, 10)
	if a.d != 1 {
		b = append(b, '/')
		b = strconv.AppendInt(b, a.d, 10)
	}
	return b
}
