package main

// Hash-consed terms with a polynomial normal form for arithmetic. Every scalar
// value of the analysed program is abstracted by one such term: two
// computations that are equal modulo the ring axioms get the same term
// (global value numbering modulo the axioms of exact arithmetic).

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	id   int
	op   string
	args []*Term
	rat  *big.Rat // op "rat"
	str  string   // op "str", "sym", or extra discriminator
	poly []mono   // op "poly"
	aux  interface{}
	key  string
	h    int     // binder height
	syms []int32 // ids of the symbols occurring in it, sorted
}

type mono struct {
	c  *big.Rat
	fs []fac
}
type fac struct {
	t *Term
	e int
}

// binderOps are the operators that bind the symbol in args[0].
var binderOps = map[string]bool{"comp": true, "rep": true, "sum": true, "any": true, "first": true, "last": true, "fold": true, "rmin": true, "rmax": true, "amin": true, "amax": true}

var (
	termTab  = map[string]*Term{}
	allTerms []*Term
)

// effort bounds the number of terms one summary may create.
var (
	effort   int
	effortOn bool
)

func spend(n int) {
	if effort&255 == 0 {
		tick()
	}
	if effort -= n; effort < 0 && effortOn {
		effortOn = false
		giveUp("analysis effort exhausted")
	}
}

func unionSyms(a, b []int32) []int32 {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	sub := func(x, y []int32) bool { // x within y
		j := 0
		for _, v := range x {
			for j < len(y) && y[j] < v {
				j++
			}
			if j == len(y) || y[j] != v {
				return false
			}
		}
		return true
	}
	if len(b) <= len(a) && sub(b, a) {
		return a
	}
	if len(a) <= len(b) && sub(a, b) {
		return b
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func intern(t *Term) *Term {
	if o, ok := termTab[t.key]; ok {
		return o
	}
	t.id = len(allTerms)
	for _, a := range t.args {
		if a.h > t.h {
			t.h = a.h
		}
	}
	for _, m := range t.poly {
		for _, f := range m.fs {
			if f.t.h > t.h {
				t.h = f.t.h
			}
		}
	}
	if b, ok := t.aux.(B); ok {
		for _, v := range bSupport(b) {
			if v.h > t.h {
				t.h = v.h
			}
		}
	}
	if binderOps[t.op] {
		t.h++
	}
	if t.op == "sym" {
		t.syms = []int32{int32(t.id)}
	} else {
		for _, a := range t.args {
			t.syms = unionSyms(t.syms, a.syms)
		}
		for _, m := range t.poly {
			for _, f := range m.fs {
				t.syms = unionSyms(t.syms, f.t.syms)
			}
		}
		if b, ok := t.aux.(B); ok {
			for _, v := range bSupport(b) {
				t.syms = unionSyms(t.syms, v.syms)
			}
		}
	}
	spend(1)
	allTerms = append(allTerms, t)
	termTab[t.key] = t
	return t
}

func tRat(r *big.Rat) *Term { return intern(&Term{op: "rat", rat: r, key: "#" + ratKey(r)}) }

// ratKey identifies constants up to 11 significant digits: the constants of the
// program are themselves rounded (math.Pi/180 folded by the compiler or divided
// at run time), so keys are taken at a precision far coarser than a float64 ulp
// and far finer than any meaningful coefficient.
var ratKeys = map[[2]int64]string{}

func ratKey(r *big.Rat) string {
	if r.IsInt() {
		if r.Num().IsInt64() {
			return strconv.FormatInt(r.Num().Int64(), 10)
		}
		return r.Num().String()
	}
	if r.Num().IsInt64() && r.Denom().IsInt64() {
		k := [2]int64{r.Num().Int64(), r.Denom().Int64()}
		s, ok := ratKeys[k]
		if !ok {
			s = ratText(r)
			ratKeys[k] = s
		}
		return s
	}
	return ratText(r)
}

func ratText(r *big.Rat) string {
	f := new(big.Float).SetPrec(200).SetRat(r)
	s := f.Text('g', 11)
	if g, ok := new(big.Rat).SetString(s); ok && g.IsInt() {
		return g.Num().String()
	}
	return s
}
func tInt(n int64) *Term { return tRat(new(big.Rat).SetInt64(n)) }
func tFloat(f float64) *Term {
	if math.IsInf(f, 1) {
		return tInf()
	}
	if math.IsInf(f, -1) {
		return tNeg(tInf())
	}
	if math.IsNaN(f) {
		return tNaN()
	}
	return tRat(new(big.Rat).SetFloat64(f))
}
func tInf() *Term { return intern(&Term{op: "inf", key: "inf"}) }
func tNaN() *Term { return intern(&Term{op: "nan", key: "nan"}) }
func tStr(s string) *Term {
	return intern(&Term{op: "str", str: s, key: "s" + strconv.Quote(s)})
}
func tSym(name string) *Term { return intern(&Term{op: "sym", str: name, key: "$" + name}) }

func app(op string, args ...*Term) *Term { return appS(op, "", args...) }
func appS(op, s string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	if s != "" {
		b.WriteString("[" + s + "]")
	}
	b.WriteByte('(')
	for i, a := range args {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteByte('@')
		b.WriteString(strconv.Itoa(a.id))
	}
	b.WriteByte(')')
	return intern(&Term{op: op, str: s, args: args, key: b.String()})
}

func isRat(t *Term) bool { return t.op == "rat" }
func ratInt(t *Term) (int, bool) {
	if t.op == "rat" && t.rat.IsInt() && t.rat.Num().IsInt64() {
		return int(t.rat.Num().Int64()), true
	}
	return 0, false
}
func ratF(t *Term) float64 { f, _ := t.rat.Float64(); return f }

// ---- polynomials

func monoKey(fs []fac) string {
	var a [64]byte
	b := a[:0]
	for _, f := range fs {
		b = strconv.AppendInt(b, int64(f.t.id), 10)
		b = append(b, '^')
		b = strconv.AppendInt(b, int64(f.e), 10)
		b = append(b, '.')
	}
	return string(b)
}

var cancelTol = big.NewRat(1, 10000000000000)

func toPoly(t *Term) []mono {
	switch t.op {
	case "rat":
		if t.rat.Sign() == 0 {
			return nil
		}
		return []mono{{t.rat, nil}}
	case "poly":
		return t.poly
	}
	return []mono{{big.NewRat(1, 1), []fac{{t, 1}}}}
}

func fromPoly(ms []mono) *Term {
	m := map[string]mono{}
	for _, x := range ms {
		k := monoKey(x.fs)
		if o, ok := m[k]; ok {
			sum := new(big.Rat).Add(o.c, x.c)
			if sum.Sign() != 0 {
				mag := new(big.Rat).Add(new(big.Rat).Abs(o.c), new(big.Rat).Abs(x.c))
				mag.Mul(mag, cancelTol)
				if new(big.Rat).Abs(sum).Cmp(mag) < 0 {
					sum = new(big.Rat)
				}
			}
			m[k] = mono{sum, o.fs}
		} else {
			m[k] = x
		}
	}
	var keys []string
	for k, x := range m {
		if x.c.Sign() != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		return tInt(0)
	}
	var out []mono
	for _, k := range keys {
		out = append(out, m[k])
	}
	if len(out) == 1 {
		if len(out[0].fs) == 0 {
			return tRat(out[0].c)
		}
		if len(out[0].fs) == 1 && out[0].fs[0].e == 1 && out[0].c.Cmp(big.NewRat(1, 1)) == 0 {
			return out[0].fs[0].t
		}
	}
	var b strings.Builder
	b.WriteString("P:")
	for _, x := range out {
		b.WriteString(ratKey(x.c) + "*" + monoKey(x.fs) + "+")
	}
	return intern(&Term{op: "poly", poly: out, key: b.String()})
}

func tAdd(a, b *Term) *Term {
	if isNaN(a) || isNaN(b) {
		return tNaN()
	}
	if a.op == "inf" && isRat(b) {
		return a
	}
	if b.op == "inf" && isRat(a) {
		return b
	}
	return fromPoly(append(append([]mono{}, toPoly(a)...), toPoly(b)...))
}
func isNaN(t *Term) bool { return t.op == "nan" }
func tScale(a *Term, c *big.Rat) *Term {
	if isNaN(a) {
		return a
	}
	var out []mono
	for _, m := range toPoly(a) {
		out = append(out, mono{new(big.Rat).Mul(m.c, c), m.fs})
	}
	return fromPoly(out)
}
func tNeg(a *Term) *Term    { return tScale(a, big.NewRat(-1, 1)) }
func tSub(a, b *Term) *Term { return tAdd(a, tNeg(b)) }

func mulFs(a, b []fac) []fac {
	m := map[*Term]int{}
	for _, f := range a {
		m[f.t] += f.e
	}
	for _, f := range b {
		m[f.t] += f.e
	}
	var out []fac
	for t, e := range m {
		if e != 0 {
			out = append(out, fac{t, e})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].t.id < out[j].t.id })
	return out
}

const polyLimit = 400

func tMul(a, b *Term) *Term {
	if isNaN(a) || isNaN(b) {
		return tNaN()
	}
	pa, pb := toPoly(a), toPoly(b)
	if len(pa)*len(pb) > polyLimit {
		// keep large factors opaque (interned as atoms)
		if len(pa) > 1 {
			a, pa = atomize(a)
		}
		if len(pa)*len(pb) > polyLimit && len(pb) > 1 {
			b, pb = atomize(b)
		}
	}
	var out []mono
	var extra *Term
	for _, x := range pa {
		for _, y := range pb {
			fs := mulFs(x.fs, y.fs)
			c := new(big.Rat).Mul(x.c, y.c)
			red := false
			for _, f := range fs {
				if (f.t.op == "sqrt" || f.t.op == "abs") && (f.e >= 2 || f.e <= -2) {
					red = true
				}
			}
			if !red {
				out = append(out, mono{c, fs})
				continue
			}
			r := tRat(c)
			var rest []fac
			for _, f := range fs {
				e := f.e
				if f.t.op == "sqrt" || f.t.op == "abs" {
					sq := f.t.args[0]
					if f.t.op == "abs" {
						sq = tMul(sq, sq)
					}
					for e >= 2 {
						r = tMul(r, sq)
						e -= 2
					}
					for e <= -2 {
						r = tDiv(r, sq)
						e += 2
					}
				}
				if e != 0 {
					rest = append(rest, fac{f.t, e})
				}
			}
			r = tMul(r, fromPoly([]mono{{big.NewRat(1, 1), rest}}))
			if extra == nil {
				extra = r
			} else {
				extra = tAdd(extra, r)
			}
		}
	}
	if extra != nil {
		return tAdd(fromPoly(out), extra)
	}
	return fromPoly(out)
}

// atomize wraps a polynomial as an opaque atom.
func atomize(t *Term) (*Term, []mono) {
	w := app("box", t)
	return w, toPoly(w)
}

func leadCoef(t *Term) *big.Rat {
	p := toPoly(t)
	if len(p) == 0 {
		return new(big.Rat)
	}
	if len(p) > 1 && len(p[0].fs) == 0 {
		return p[1].c
	}
	return p[0].c
}

func tDiv(a, b *Term) *Term {
	if isNaN(a) || isNaN(b) {
		return tNaN()
	}
	if isRat(b) {
		if b.rat.Sign() == 0 {
			return app("div0", a)
		}
		return tScale(a, new(big.Rat).Inv(b.rat))
	}
	pb := toPoly(b)
	if len(pb) == 1 {
		m := pb[0]
		var inv []fac
		for _, f := range m.fs {
			inv = append(inv, fac{f.t, -f.e})
		}
		var out []mono
		for _, x := range toPoly(a) {
			out = append(out, mono{new(big.Rat).Quo(x.c, m.c), mulFs(x.fs, inv)})
		}
		return fromPoly(out)
	}
	l := leadCoef(b)
	nb := tScale(b, new(big.Rat).Inv(l))
	atom := app("box", nb)
	if a.op == "poly" || a.op == "rat" {
		// a == c * b ?
		if c, ok := ratioOf(a, nb); ok {
			return tRat(new(big.Rat).Quo(c, l))
		}
	}
	var out []mono
	for _, x := range toPoly(a) {
		out = append(out, mono{new(big.Rat).Quo(x.c, l), mulFs(x.fs, []fac{{atom, -1}})})
	}
	return fromPoly(out)
}

// ratioOf reports c such that a == c*b.
func ratioOf(a, b *Term) (*big.Rat, bool) {
	if isRat(b) {
		return nil, false
	}
	la, lb := leadCoef(a), leadCoef(b)
	if la.Sign() == 0 || lb.Sign() == 0 {
		return nil, false
	}
	c := new(big.Rat).Quo(la, lb)
	if tScale(b, c) == a {
		return c, true
	}
	return nil, false
}

func negLead(t *Term) bool { return leadCoef(t).Sign() < 0 }

func foldF(name string, f func(float64) float64, a *Term) (*Term, bool) {
	if isRat(a) {
		v := f(ratF(a))
		if !math.IsNaN(v) && !math.IsInf(v, 0) {
			return tFloat(v), true
		}
	}
	return nil, false
}

func tSqrt(a *Term) *Term {
	if r, ok := foldF("sqrt", math.Sqrt, a); ok {
		return r
	}
	return app("sqrt", a)
}
func tAbs(a *Term) *Term {
	if isRat(a) {
		return tRat(new(big.Rat).Abs(a.rat))
	}
	if a.op == "abs" || a.op == "sqrt" {
		return a
	}
	if negLead(a) {
		a = tNeg(a)
	}
	return app("abs", a)
}
func tPow(a *Term, n int) *Term {
	if n == 0 {
		return tInt(1)
	}
	r := a
	for i := 1; i < n; i++ {
		r = tMul(r, a)
	}
	return r
}

func tMinMax(op string, a, b *Term) *Term {
	var xs []*Term
	for _, t := range []*Term{a, b} {
		if t.op == op {
			xs = append(xs, t.args...)
		} else {
			xs = append(xs, t)
		}
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].id < xs[j].id })
	var u []*Term
	for i, t := range xs {
		if i == 0 || t != xs[i-1] {
			u = append(u, t)
		}
	}
	if len(u) == 1 {
		return u[0]
	}
	allc := true
	for _, t := range u {
		if !isRat(t) {
			allc = false
		}
	}
	if !allc && op == "max" {
		// max(0, len(x)) is len(x)
		some := false
		for _, t := range u {
			some = some || t.op == "len" || t.op == "strlen" || t.op == "maplen" || t.op == "abs"
		}
		if some {
			var v []*Term
			for _, t := range u {
				if !isRat(t) || t.rat.Sign() > 0 {
					v = append(v, t)
				}
			}
			if u = v; len(u) == 1 {
				return u[0]
			}
		}
	}
	if allc {
		best := u[0]
		for _, t := range u[1:] {
			c := t.rat.Cmp(best.rat)
			if (op == "min" && c < 0) || (op == "max" && c > 0) {
				best = t
			}
		}
		return best
	}
	return app(op, u...)
}

func tMathFn(name string, args []*Term) *Term {
	a := args[0]
	switch name {
	case "Sqrt":
		return tSqrt(a)
	case "Abs":
		return tAbs(a)
	case "Sin":
		if isRat(a) {
			r, _ := foldF("", math.Sin, a)
			return r
		}
		if negLead(a) {
			return tNeg(app("sin", tNeg(a)))
		}
		return app("sin", a)
	case "Tan":
		return tDiv(tMathFn("Sin", args), tMathFn("Cos", args))
	case "Cos":
		if isRat(a) {
			r, _ := foldF("", math.Cos, a)
			return r
		}
		if negLead(a) {
			a = tNeg(a)
		}
		return app("cos", a)
	case "Asin", "Acos", "Atan", "Log2", "Log", "Ceil", "Floor", "Trunc", "Exp":
		fs := map[string]func(float64) float64{"Asin": math.Asin, "Acos": math.Acos, "Atan": math.Atan, "Log2": math.Log2, "Log": math.Log, "Ceil": math.Ceil, "Floor": math.Floor, "Trunc": math.Trunc, "Exp": math.Exp}
		if r, ok := foldF(name, fs[name], a); ok {
			return r
		}
		return app(strings.ToLower(name), a)
	case "Hypot":
		return tSqrt(tAdd(tMul(a, a), tMul(args[1], args[1])))
	case "Min":
		return tMinMax("min", a, args[1])
	case "Max":
		return tMinMax("max", a, args[1])
	case "Pow":
		if n, ok := ratInt(args[1]); ok && n >= 0 && n <= 8 {
			return tPow(a, n)
		}
		if isRat(args[1]) && args[1].rat.Cmp(big.NewRat(1, 2)) == 0 {
			return tSqrt(a)
		}
		return app("pow", args...)
	case "Inf":
		if n, ok := ratInt(a); ok && n < 0 {
			return tNeg(tInf())
		}
		return tInf()
	}
	return app(strings.ToLower(name), args...)
}

// ---- printing

func (t *Term) String() string { return t.show(0) }

// showLeft bounds how many subterms are printed in one message.
var showLeft, showDepth int

func (t *Term) show(d int) string {
	if showDepth == 0 {
		showLeft = 400
		if os.Getenv("GEO_LONG") != "" {
			showLeft = 1 << 30
		}
	}
	showDepth++
	defer func() { showDepth-- }()
	if showLeft--; d > 14 || showLeft < 0 {
		return "…"
	}
	switch t.op {
	case "rat":
		if t.rat.IsInt() {
			return t.rat.RatString()
		}
		f, _ := t.rat.Float64()
		return strconv.FormatFloat(f, 'g', 8, 64)
	case "inf", "nan":
		return t.op
	case "str":
		return strconv.Quote(t.str)
	case "sym":
		return t.str
	case "poly":
		var ps []string
		for _, m := range t.poly {
			var fs []string
			if m.c.Cmp(big.NewRat(1, 1)) != 0 || len(m.fs) == 0 {
				fs = append(fs, tRat(m.c).show(d+1))
			}
			for _, f := range m.fs {
				s := f.t.show(d + 1)
				if f.e != 1 {
					s += fmt.Sprintf("^%d", f.e)
				}
				fs = append(fs, s)
			}
			ps = append(ps, strings.Join(fs, "*"))
		}
		return "(" + strings.Join(ps, " + ") + ")"
	}
	if t.op == "bool" && d < 8 {
		return bString(t.aux.(B))
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.show(d+1))
	}
	if t.op == "elem" {
		return as[0] + "[" + as[1] + "]"
	}
	if t.op == "fld" {
		return as[0] + "." + t.str
	}
	n := t.op
	if t.str != "" {
		n += "{" + t.str + "}"
	}
	return n + "(" + strings.Join(as, ", ") + ")"
}

// subterms calls f on t and all its subterms; f returns false to prune.
func (t *Term) walk(seen map[*Term]bool, f func(*Term) bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if !f(t) {
		return
	}
	for _, a := range t.args {
		a.walk(seen, f)
	}
	for _, m := range t.poly {
		for _, x := range m.fs {
			x.t.walk(seen, f)
		}
	}
	if b, ok := t.aux.(B); ok {
		for _, v := range bSupport(b) {
			v.walk(seen, f)
		}
	}
}

func (t *Term) contains(u *Term) bool {
	if u.op == "sym" {
		i := sort.Search(len(t.syms), func(i int) bool { return t.syms[i] >= int32(u.id) })
		return i < len(t.syms) && t.syms[i] == int32(u.id)
	}
	found := false
	t.walk(map[*Term]bool{}, func(x *Term) bool {
		if x == u {
			found = true
		}
		return !found
	})
	return found
}

func appAux(op, s string, aux interface{}, auxKey string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op + "[" + s + "]<" + auxKey + ">(")
	for i, a := range args {
		if i > 0 {
			b.WriteByte(',')
		}
		fmt.Fprintf(&b, "@%d", a.id)
	}
	b.WriteByte(')')
	return intern(&Term{op: op, str: s, args: args, aux: aux, key: b.String()})
}

// string concatenation, flattened
func tCat(ts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == "cat" {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if t.op == "str" {
			if t.str == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].op == "str" {
				out[n-1] = tStr(out[n-1].str + t.str)
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		add(t)
	}
	if len(out) == 0 {
		return tStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	if j := joined(out); j != nil {
		return tCat(j...)
	}
	return app("cat", out...)
}

// ---- BDDs over atomic conditions (Terms)

type B int // 0 = false, 1 = true

type bnode struct {
	v      *Term
	lo, hi B
}

var (
	bnodes  = []bnode{{}, {}}
	btab    = map[[3]int]B{}
	iteMemo = map[[3]B]B{}
)

func mkB(v *Term, lo, hi B) B {
	if lo == hi {
		return lo
	}
	k := [3]int{v.id, int(lo), int(hi)}
	if b, ok := btab[k]; ok {
		return b
	}
	spend(1)
	b := B(len(bnodes))
	bnodes = append(bnodes, bnode{v, lo, hi})
	btab[k] = b
	return b
}
func bAtom(t *Term) B { return mkB(t, 0, 1) }
func bIte(c, t, f B) B {
	if c == 1 {
		return t
	}
	if c == 0 {
		return f
	}
	if t == f {
		return t
	}
	if t == 1 && f == 0 {
		return c
	}
	k := [3]B{c, t, f}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	top := bnodes[c].v
	for _, x := range []B{t, f} {
		if x > 1 && bnodes[x].v.id < top.id {
			top = bnodes[x].v
		}
	}
	co := func(x B) (B, B) {
		if x > 1 && bnodes[x].v == top {
			return bnodes[x].lo, bnodes[x].hi
		}
		return x, x
	}
	cl, ch := co(c)
	tl, th := co(t)
	fl, fh := co(f)
	r := mkB(top, bIte(cl, tl, fl), bIte(ch, th, fh))
	iteMemo[k] = r
	return r
}
func bAnd(a, b B) B        { return bIte(a, b, 0) }
func bOr(a, b B) B         { return bIte(a, 1, b) }
func bNot(a B) B           { return bIte(a, 0, 1) }
func bImplies(a, b B) bool { return bAnd(a, bNot(b)) == 0 }

// bSupport lists the atoms of b.
var supMemo = map[B][]*Term{}

func bSupport(b B) []*Term {
	if r, ok := supMemo[b]; ok {
		return r
	}
	r := bSupport0(b)
	supMemo[b] = r
	return r
}

func bSupport0(b B) []*Term {
	seen := map[B]bool{}
	vs := map[*Term]bool{}
	var rec func(B)
	rec = func(x B) {
		if x <= 1 || seen[x] {
			return
		}
		seen[x] = true
		vs[bnodes[x].v] = true
		rec(bnodes[x].lo)
		rec(bnodes[x].hi)
	}
	rec(b)
	var out []*Term
	for v := range vs {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// bCofactor fixes atom v to val.
func bCofactor(b B, v *Term, val bool) B {
	memo := map[B]B{}
	var rec func(B) B
	rec = func(x B) B {
		if x <= 1 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		n := bnodes[x]
		var r B
		if n.v == v {
			if val {
				r = n.hi
			} else {
				r = n.lo
			}
		} else {
			r = mkB(n.v, rec(n.lo), rec(n.hi))
		}
		memo[x] = r
		return r
	}
	return rec(b)
}

type lit struct {
	t   *Term
	pos bool
}

// bCubes enumerates the paths to true, up to max; ok=false when there are more.
func bCubes(b B, max int) ([][]lit, bool) {
	var out [][]lit
	ok := true
	var rec func(x B, cur []lit)
	rec = func(x B, cur []lit) {
		if !ok || x == 0 {
			return
		}
		if x == 1 {
			if len(out) >= max {
				ok = false
				return
			}
			out = append(out, append([]lit(nil), cur...))
			return
		}
		n := bnodes[x]
		rec(n.lo, append(cur, lit{n.v, false}))
		rec(n.hi, append(cur, lit{n.v, true}))
	}
	rec(b, nil)
	return out, ok
}

var showCubes = 6

func bString(b B) string {
	if showDepth == 0 {
		showLeft = 400
		if os.Getenv("GEO_LONG") != "" {
			showLeft = 1 << 30
		}
	}
	showDepth++
	defer func() { showDepth-- }()
	if b == 0 {
		return "false"
	}
	if b == 1 {
		return "true"
	}
	cs, ok := bCubes(b, showCubes)
	var ps []string
	for _, c := range cs {
		var ls []string
		for _, l := range c {
			s := l.t.String()
			if !l.pos {
				s = "!" + s
			}
			ls = append(ls, s)
		}
		ps = append(ps, strings.Join(ls, " & "))
	}
	s := strings.Join(ps, " | ")
	if !ok {
		s += " | ..."
	}
	return s
}

// bMap rewrites atoms through f (atom -> BDD).
func bMap(b B, f func(*Term) B) B {
	memo := map[B]B{}
	var rec func(B) B
	rec = func(x B) B {
		if x <= 1 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		n := bnodes[x]
		r := bIte(f(n.v), rec(n.hi), rec(n.lo))
		memo[x] = r
		return r
	}
	return rec(b)
}

// ---- atomic conditions

// numeric comparison atoms; ints and floats are kept apart because integer
// comparisons have a complement (no NaN).
func cmpLt(a, b *Term, isInt bool) B { // a < b
	if isNaN(a) || isNaN(b) {
		return 0
	}
	if a == b {
		return 0
	}
	if r, ok := infCmp(a, b); ok {
		if r {
			return 1
		}
		if a.op == "inf" || isNegInf(b) {
			return 0
		}
	}
	p := tSub(a, b)
	return ltZero(p, isInt)
}
func isNegInf(t *Term) bool { return t == tNeg(tInf()) }

// infCmp decides finite-constant vs infinity comparisons.
func infCmp(a, b *Term) (bool, bool) {
	fin := func(t *Term) bool { return isRat(t) }
	switch {
	case a.op == "inf" && (fin(b) || isNegInf(b)):
		return false, true
	case b.op == "inf" && (fin(a) || isNegInf(a)):
		return true, true
	case isNegInf(a) && fin(b):
		return true, true
	case isNegInf(b) && fin(a):
		return false, true
	}
	return false, false
}

func ltZero(p *Term, isInt bool) B {
	if isRat(p) {
		if p.rat.Sign() < 0 {
			return 1
		}
		return 0
	}
	if isInt {
		if negLead(p) {
			return bNot(ltZero(tSub(tNeg(p), tInt(1)), true))
		}
		return bAtom(app("ilt0", p))
	}
	if pos, u, w, ok := absSplit(p); ok {
		if pos {
			return bAnd(ltZero(u, false), ltZero(w, false))
		}
		return bOr(ltZero(u, false), ltZero(w, false))
	}
	l := new(big.Rat).Abs(leadCoef(p))
	return bAtom(app("flt0", tScale(p, new(big.Rat).Inv(l))))
}

// absSplit: p = c·|x| + rest, as the two linear cases c·x + rest and
// -c·x + rest; pos tells whether both are bounded by p (c > 0) or either one
// equals it.
func absSplit(p *Term) (pos bool, u, w *Term, ok bool) {
	if p.op == "abs" {
		return true, p.args[0], tNeg(p.args[0]), true
	}
	if p.op != "poly" {
		return
	}
	for _, m := range p.poly {
		if len(m.fs) == 1 && m.fs[0].e == 1 && m.fs[0].t.op == "abs" {
			a := m.fs[0].t
			rest := tSub(p, tScale(a, m.c))
			cx := tScale(a.args[0], m.c)
			return m.c.Sign() > 0, tAdd(cx, rest), tSub(rest, cx), true
		}
	}
	return
}

func leZero(p *Term) B {
	if isRat(p) {
		if p.rat.Sign() <= 0 {
			return 1
		}
		return 0
	}
	if pos, u, w, ok := absSplit(p); ok {
		if pos {
			return bAnd(leZero(u), leZero(w))
		}
		return bOr(leZero(u), leZero(w))
	}
	l := new(big.Rat).Abs(leadCoef(p))
	return bAtom(app("fle0", tScale(p, new(big.Rat).Inv(l))))
}
func cmpLe(a, b *Term, isInt bool) B {
	if isNaN(a) || isNaN(b) {
		return 0
	}
	if isInt {
		return cmpLt(a, tAdd(b, tInt(1)), true)
	}
	if a == b {
		return 1 // modulo NaN
	}
	if r, ok := infCmp(a, b); ok {
		if r {
			return 1
		}
		return 0
	}
	return leZero(tSub(a, b))
}
func parity(p *Term) (m *Term, c int, ok bool) {
	if p.op == "imod" {
		m = p
	} else if p.op == "poly" && len(p.poly) == 2 {
		for _, x := range p.poly {
			if len(x.fs) == 1 && x.fs[0].e == 1 && x.fs[0].t.op == "imod" {
				m = x.fs[0].t
			}
		}
	}
	if m == nil {
		return
	}
	if n, isI := ratInt(m.args[1]); !isI || n != 2 {
		return
	}
	c, ok = ratInt(tSub(p, m))
	if ok {
		ok = decideB(cmpLe(tInt(0), m.args[0], true), 1) == 1
	}
	return
}

func cmpEq(a, b *Term, isInt bool) B {
	if isNaN(a) || isNaN(b) {
		return 0
	}
	if a == b {
		return 1
	}
	if _, ok := infCmp(a, b); ok {
		return 0
	}
	p := tSub(a, b)
	if isRat(p) {
		return 0
	}
	p = tScale(p, new(big.Rat).Inv(leadCoef(p)))
	if isInt {
		// x % 2 is 0 or 1 for x >= 0
		if m, c, ok := parity(p); ok {
			switch c {
			case 0:
				return bNot(bAtom(app("ieq0", tSub(m, tInt(1)))))
			case -1:
				return bAtom(app("ieq0", p))
			}
			return 0
		}
		return bAtom(app("ieq0", p))
	}
	return bAtom(app("feq0", p))
}
