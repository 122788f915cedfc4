package main

// Models of library functions. Everything not listed here is treated as an
// uninterpreted pure function of its arguments (see opaque).

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isBuilder(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return s == "strings.Builder" || s == "bytes.Buffer"
}

func (fr *frame) extern(c *bctx, in ssa.Instruction, f *ssa.Function, args []*Value) (*Value, bool) {
	name := f.String()
	st := c.st
	str := func(i int) *Value { return args[i] }
	switch {
	case f.Synthetic == "package initializer" || (f.Name() == "init" && len(args) == 0):
		return nil, true
	case strings.HasPrefix(name, "math.") && f.Signature.Recv() == nil:
		fn := strings.TrimPrefix(name, "math.")
		switch fn {
		case "NaN":
			return tv(tNaN()), true
		case "IsNaN":
			return bv(notANumber(args)), true
		case "IsInf":
			return nil, false
		}
		return lift(args, func(t []*Term) *Value {
			if isNaN(t[0]) {
				return tv(tNaN())
			}
			return tv(tMathFn(fn, t))
		}), true
	case name == "encoding/json.Marshal":
		return fr.jsonMarshal(c, in, f, args)
	case name == "encoding/json.Unmarshal":
		l := ""
		for _, a := range args[1].alts {
			if x, ok := a.a.(IfaceA); ok {
				l = jsonLayout(x.typ)
			}
		}
		return fr.opaque(c, in, name+l, f.Signature, args), true
	case name == "errors.New", name == "fmt.Errorf":
		return tv(appS("err", "", enc(args[0], st))), true
	case name == "strconv.AppendFloat", name == "strconv.AppendInt", name == "strconv.AppendQuote", name == "strconv.AppendBool":
		var ts []*Term
		for _, a := range args[1:] {
			ts = append(ts, enc(a, st))
		}
		s := app("str2bytes", appS("call", "strconv."+strings.Replace(strings.TrimPrefix(name, "strconv.Append"), "", "Format", 1), ts...))
		if name == "strconv.AppendQuote" {
			s = app("str2bytes", appS("call", "strconv.Quote", ts...))
		}
		return fr.appendT(c, in, types.Typ[types.Byte], args[0], tv(s)), true
	case name == "strings.Join":
		l := encV(args[0], st)
		return lift([]*Value{l, str(1)}, func(t []*Term) *Value { return tv(tJoin(t[0], t[1])) }), true
	case name == "strings.ReplaceAll":
		return tv(appS("call", "strings.Replace", enc(args[0], st), enc(args[1], st), enc(args[2], st), tInt(-1))), true
	case name == "strings.TrimSpace", name == "strings.Repeat":
		return nil, false
	case name == "fmt.Sprintf":
		return fr.sprintf(c, args)
	case name == "fmt.Sprint":
		return fr.sprint(c, args)
	case name == "fmt.Println", name == "fmt.Printf", name == "fmt.Print":
		return dec(appS("call", name), resType(f.Signature)), true
	case name == "sort.SearchFloat64s":
		return nil, false
	case name == "sort.Reverse":
		return mapAlts(args[0], func(a Atom, _ B) *Value {
			if o := f.Object(); o != nil && o.Pkg() != nil {
				if r := o.Pkg().Scope().Lookup("reverse"); r != nil {
					if x, ok := a.(IfaceA); ok {
						return one(IfaceA{r.Type(), one(x)})
					}
				}
			}
			giveUp("sort.Reverse of %T", a)
			return nil
		}), true
	case name == "sort.Sort", name == "sort.Stable", name == "sort.Ints", name == "sort.Float64s", name == "sort.Slice", name == "sort.SliceStable", name == "sort.Strings":
		fr.sortModel(c, f, args)
		return nil, true
	}
	if f.Signature.Recv() != nil {
		rt := f.Signature.Recv().Type()
		if pt, ok := rt.(*types.Pointer); ok && isBuilder(pt.Elem()) {
			return fr.builderModel(c, in, f, args)
		}
	}
	return nil, false
}

func (fr *frame) builderModel(c *bctx, in ssa.Instruction, f *ssa.Function, args []*Value) (*Value, bool) {
	cur := fr.load(c, in, args[0])
	add := func(v *Value) {
		fr.store(c, in, args[0], lift2(cur, v, func(a, b *Term) *Term { return tCat(a, b) }))
	}
	switch f.Name() {
	case "WriteString":
		add(args[1])
		return tuple(lift1(args[1], tStrLen), nilV()), true
	case "WriteByte", "WriteRune":
		add(lift1(args[1], func(t *Term) *Term {
			if k, ok := ratInt(t); ok {
				return tStr(string(rune(k)))
			}
			return app("runestr", t)
		}))
		if f.Name() == "WriteByte" {
			return nilV(), true
		}
		return tuple(tv(tInt(1)), nilV()), true
	case "String":
		return cur, true
	case "Len":
		return lift1(cur, tStrLen), true
	case "Grow":
		return nil, true
	}
	return nil, false
}

func (fr *frame) sprintf(c *bctx, args []*Value) (*Value, bool) {
	ft := enc(args[0], c.st)
	if ft.op != "str" {
		return nil, false
	}
	va := encV(args[1], c.st)
	ok := true
	r := lift1v(va, func(l *Term) *Value {
		switch l.op {
		case "lit":
		case "nil":
		default:
			ok = false
			return tv(l)
		}
		r := format(ft.str, l.args)
		if r == nil {
			ok = false
			return tv(l)
		}
		return r
	})
	return r, ok
}

// sprint: operands that are all strings are joined as they are.
func (fr *frame) sprint(c *bctx, args []*Value) (*Value, bool) {
	ok := true
	r := lift1v(encV(args[0], c.st), func(l *Term) *Value {
		var parts []*Term
		if l.op != "lit" && l.op != "nil" {
			ok = false
			return tv(l)
		}
		for _, it := range l.args {
			if it.op != "if" || !isString(ifTypes[it.str]) {
				ok = false
				return tv(l)
			}
			parts = append(parts, it.args[0])
		}
		return tv(tCat(parts...))
	})
	return r, ok
}

func lift1v(v *Value, f func(*Term) *Value) *Value {
	return lift([]*Value{v}, func(t []*Term) *Value { return f(t[0]) })
}

// format expands a constant format string over its operands.
func format(s string, items []*Term) *Value {
	var parts []*Term
	k := 0
	for {
		i := strings.IndexByte(s, '%')
		if i < 0 || i+1 >= len(s) {
			parts = append(parts, tStr(s))
			break
		}
		parts = append(parts, tStr(s[:i]))
		verb := s[i+1]
		if verb == '%' {
			parts = append(parts, tStr("%"))
			s = s[i+2:]
			continue
		}
		if !strings.ContainsRune("svd", rune(verb)) || k >= len(items) {
			return nil
		}
		it := items[k]
		k++
		s = s[i+2:]
		if it.op != "if" {
			parts = append(parts, appS("fmt", string(verb), it))
			continue
		}
		t := ifTypes[it.str]
		switch {
		case isString(t) && verb != 'd':
			parts = append(parts, it.args[0])
		case isInteger(t):
			if k, ok := ratInt(it.args[0]); ok {
				parts = append(parts, tStr(strconv.Itoa(k)))
				break
			}
			parts = append(parts, appS("fmt", "int", it.args[0]))
		default:
			parts = append(parts, appS("fmt", string(verb), it))
		}
	}
	if k != len(items) {
		return nil
	}
	return tv(tCat(parts...))
}

// sortedInts sorts a list of known integers in the order of the library.
func sortedInts(l *Term, kind string) *Term {
	if l.op == "nil" {
		return l
	}
	ok := kind == "Ints" || strings.HasSuffix(kind, "sort.IntSlice")
	if l.op != "lit" || !ok {
		return nil
	}
	for _, x := range l.args {
		if _, ok := ratInt(x); !ok {
			return nil
		}
	}
	xs := append([]*Term{}, l.args...)
	down := strings.Contains(kind, "sort.reverse")
	sort.SliceStable(xs, func(i, j int) bool {
		a, _ := ratInt(xs[i])
		b, _ := ratInt(xs[j])
		if down {
			a, b = b, a
		}
		return a < b
	})
	return app("lit", xs...)
}

// sortModel replaces the content behind the sorted slice by an uninterpreted
// permutation "sorted" of it.
func (fr *frame) sortModel(c *bctx, f *ssa.Function, args []*Value) {
	kind := f.Name()
	extra := []*Term{}
	if len(args) > 1 {
		extra = append(extra, enc(args[1], c.st))
	}
	var slices []func()
	var doit func(v *Value, kind string)
	doit = func(v *Value, kind string) {
		for _, a := range v.alts {
			switch x := a.a.(type) {
			case NilA:
			case IfaceA:
				doit(x.v, kind+":"+tname(x.typ))
			case PtrA:
				doit(fr.ip.loadPath(c.st, x), kind)
			case StructA:
				for _, f := range x.fs {
					doit(f, kind)
				}
			case TermA, BoolA, FuncA:
				extra = append(extra, enc(one(x), c.st))
			case SliceA:
				slices = append(slices, func() {
					cv := fr.ip.content(c.st, x.obj)
					nv := lift([]*Value{cv}, func(t []*Term) *Value {
						n := llen(t[0])
						return lift([]*Value{n}, func(ns []*Term) *Value {
							mid := lsub(t[0], x.off, tAdd(x.off, x.ln))
							s := sortedInts(mid, kind)
							if s == nil {
								s = appS("sorted", kind, append([]*Term{mid}, extra...)...)
							}
							return tv(lcat(lsub(t[0], tInt(0), x.off), s, lsub(t[0], tAdd(x.off, x.ln), ns[0])))
						})
					})
					if len(v.alts) > 1 {
						nv = mergeV([]gval{{a.g, nv}, {bNot(a.g), cv}})
					}
					c.st.m[x.obj] = nv
				})
			default:
				giveUp("sort of %T", a.a)
			}
		}
	}
	doit(args[0], kind)
	for _, f := range slices {
		f()
	}
}

var structTypes = map[string]types.Type{}
