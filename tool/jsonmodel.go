package main

// A model of encoding/json: what Marshal writes is a function of the members
// (name, value) its argument has after tags and omitempty are applied.

import (
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func marshaler(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return false
	}
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		if o, _, _ := types.LookupFieldOrMethod(x, false, nil, "MarshalJSON"); o != nil {
			if _, ok := o.(*types.Func); ok {
				return true
			}
		}
	}
	return false
}

type jfield struct {
	name string
	omit bool
	i    int
	typ  types.Type
}

// jsonFields lists the members of a struct in name order.
func jsonFields(s *types.Struct) (out []jfield, ok bool) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() {
			return nil, false
		}
		if !f.Exported() {
			continue
		}
		w := strings.Split(reflect.StructTag(s.Tag(i)).Get("json"), ",")
		if w[0] == "-" && len(w) == 1 {
			continue
		}
		jf := jfield{name: f.Name(), i: i, typ: f.Type()}
		if w[0] != "" {
			jf.name = w[0]
		}
		for _, o := range w[1:] {
			switch o {
			case "omitempty":
				jf.omit = true
			default:
				return nil, false
			}
		}
		out = append(out, jf)
	}
	sort.Slice(out, func(a, b int) bool { return out[a].name < out[b].name })
	return out, true
}

// jsonLayout describes how values of a type look in JSON.
func jsonLayout(t types.Type) string { return jsonLayout1(t, map[types.Type]bool{}) }

// jsonLayout1u ignores the type's own MarshalJSON.
func jsonLayout1u(t types.Type) string { return jsonLayout1(t.Underlying(), map[types.Type]bool{}) }

func jsonLayout1(t types.Type, seen map[types.Type]bool) string {
	if marshaler(t) {
		return "M"
	}
	if seen[t] {
		return "rec"
	}
	seen[t] = true
	defer delete(seen, t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return "s"
		case u.Info()&types.IsBoolean != 0:
			return "b"
		case u.Info()&types.IsFloat != 0:
			return "n"
		}
		return "i"
	case *types.Pointer:
		return jsonLayout1(u.Elem(), seen)
	case *types.Slice:
		return "[" + jsonLayout1(u.Elem(), seen) + "]"
	case *types.Array:
		return "[" + jsonLayout1(u.Elem(), seen) + "]"
	case *types.Map:
		return "{" + jsonLayout1(u.Elem(), seen) + "}"
	case *types.Interface:
		return "any"
	case *types.Struct:
		fs, ok := jsonFields(u)
		if !ok {
			return t.String()
		}
		var w []string
		for _, f := range fs {
			o := ""
			if f.omit {
				o = "?"
			}
			w = append(w, f.name+o+":"+jsonLayout1(f.typ, seen))
		}
		return "(" + strings.Join(w, " ") + ")"
	}
	return t.String()
}

func (fr *frame) jsonVal(c *bctx, in ssa.Instruction, v *Value, t types.Type, nils bool) *Value {
	if _, isI := t.Underlying().(*types.Interface); isI {
		return mapAlts(v, func(a Atom, _ B) *Value {
			switch x := a.(type) {
			case IfaceA:
				return fr.jsonVal(c, in, x.v, x.typ, false)
			case NilA:
				return tv(app("jnull"))
			}
			return tv(appS("json", "any", enc(one(a), c.st)))
		})
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return mapAlts(v, func(a Atom, _ B) *Value {
			switch x := a.(type) {
			case NilA:
				return tv(app("jnull"))
			case PtrA:
				return fr.jsonVal(c, in, fr.ip.loadPath(c.st, x), p.Elem(), nils)
			}
			giveUp("JSON of a pointer")
			return nil
		})
	}
	if marshaler(t) {
		return lift1(encV(v, c.st), func(x *Term) *Term { return appS("json", "M:"+tname(t), x) })
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		fs, ok := jsonFields(u)
		if !ok {
			giveUp("JSON of embedded fields or unusual tags")
		}
		return mapAlts(v, func(a Atom, _ B) *Value {
			s, ok := a.(StructA)
			if !ok {
				giveUp("JSON of %T", a)
			}
			var names []string
			var vals []*Term
			for _, f := range fs {
				fv := s.fs[f.i]
				jv := fr.jsonVal(c, in, fv, f.typ, !f.omit)
				if f.omit {
					e := fr.jsonEmpty(c, fv, f.typ)
					if e == 1 {
						continue
					}
					if e != 0 {
						jv = mergeV([]gval{{e, tv(app("absent"))}, {bNot(e), jv}})
					}
				}
				names = append(names, f.name)
				vals = append(vals, gvTerm(jv))
			}
			return tv(appS("jobj", strings.Join(names, ","), vals...))
		})
	case *types.Slice, *types.Map:
		return mapAlts(v, func(a Atom, g B) *Value {
			if _, ok := a.(NilA); ok && nils {
				return tv(app("jnull"))
			}
			j := lift1(encV(&Value{[]Alt{{1, a}}}, c.st), func(x *Term) *Term { return appS("json", jsonLayout(t), x) })
			if s, ok := a.(SliceA); ok && nils && s.nl != 0 {
				return mergeV([]gval{{s.nl, tv(app("jnull"))}, {bNot(s.nl), j}})
			}
			return j
		})
	}
	return lift1(encV(v, c.st), func(x *Term) *Term { return appS("json", jsonLayout(t), x) })
}

// jsonEmpty: omitempty leaves the member out.
func (fr *frame) jsonEmpty(c *bctx, v *Value, t types.Type) B {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Array:
		return liftB([]*Value{lenV(v, c.st)}, func(x []*Term) B { return cmpLe(x[0], tInt(0), true) })
	case *types.Pointer, *types.Interface:
		return liftB([]*Value{encV(v, c.st)}, func(x []*Term) B { return isNilTerm(x[0]) })
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return bNot(asBool(v))
		case u.Info()&types.IsString != 0:
			return liftB([]*Value{lift1(v, tStrLen)}, func(x []*Term) B { return cmpLe(x[0], tInt(0), true) })
		case u.Info()&types.IsNumeric != 0:
			return liftB([]*Value{v}, func(x []*Term) B { return cmpEq(x[0], tInt(0), u.Info()&types.IsInteger != 0) })
		}
	}
	return 0
}

func (fr *frame) jsonMarshal(c *bctx, in ssa.Instruction, f *ssa.Function, args []*Value) (*Value, bool) {
	j := fr.jsonVal(c, in, args[0], f.Signature.Params().At(0).Type(), false)
	return lift1v(j, func(t *Term) *Value {
		return dec(appS("call", f.String(), t), resType(f.Signature))
	}), true
}
