package main

// Which exported functions may panic, and when.

import (
	_ "embed"
	"fmt"
	"go/ast"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// exported: the functions a user of the module can call.
func (p *Program) exported() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.funcs() {
		if f.Parent() != nil || f.Name() == "init" || !ast.IsExported(f.Name()) {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			n := tname(r.Type())
			n = strings.TrimPrefix(n, "*")
			n = n[strings.LastIndex(n, ".")+1:]
			if !ast.IsExported(n) {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

func init() { register("P06", ruleReturns) }

//go:embed exported.txt
var exportedAtPin string

// ruleReturns: the exported functions of the pinned commit return whatever
// they are given. Those with a directive of their own are decided by it.
func ruleReturns(c *Ctx) (out []Finding) {
	listed := map[string]bool{}
	for _, n := range strings.Fields(exportedAtPin) {
		listed[n] = true
	}
	own := map[string]bool{}
	for _, r := range c.rules {
		if r.kind == "nopanic" {
			own[r.pkg+r.target] = true
		}
	}
	limit := ruleSeconds
	ruleSeconds = 10
	defer func() { ruleSeconds = limit }()
	for _, f := range c.p.exported() {
		n := shortName(f)
		if own[n] || !listed[n] {
			continue
		}
		x := panicsOf(c.p, c.base, f)
		x.Prop = c.prop
		out = append(out, x)
	}
	return
}

func panicsCmd(names []string) {
	p, _, _, err := loadWithSpecs()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	ip := newInterp(p)
	ip.runInit()
	for _, f := range p.exported() {
		ok := len(names) == 0
		for _, n := range names {
			ok = ok || strings.Contains(f.String(), n)
		}
		if !ok || (len(names) == 0 && strings.Contains(f.String(), "Rtree")) {
			continue
		}
		x := panicsOf(p, ip, f)
		fmt.Println(x.Verdict, x.Key, x.Sites, x.Where, x.Detail)
	}
}

// panicsOf decides that f returns for all arguments that satisfy pre.
func panicsOf(p *Program, ip *Interp, f *ssa.Function) (out Finding) {
	out = Finding{Rule: "no-panic", Key: "no-panic:" + shortName(f), Where: p.pos(f.Pos()), Func: shortName(f), Sites: 1}
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(undecided)
			if !ok {
				if debugPanic {
					panic(x)
				}
				u.why = fmt.Sprintf("internal: %v", x)
			}
			pathCond = pathCond[:1]
			byIdentity()
			out.Verdict, out.Detail = "undecided", u.why
		}
	}()
	startRule()
	contracts, unfold = map[*ssa.Function]*ssa.Function{}, 0
	unrollOpen = 0
	params := symParams(f.Signature)
	pre, _ := preCond(p, ip, SpecRule{}, params)
	a := summariseUnder(p, ip, f, params, pre)
	if a.why != "" {
		out.Verdict, out.Detail = "undecided", a.why
		return
	}
	out.Sites += len(a.obls)
	out.Verdict = "holds"
	mayPanic(p, shortName(f), a, pre, &out)
	return
}

// mayPanic looks for an obligation of the summary that is not met on all
// inputs of pre.
func mayPanic(p *Program, name string, a *Summary, pre B, f *Finding) bool {
	for _, definite := range []bool{true, false} {
		for _, o := range a.obls {
			g := bAnd(pre, bAnd(o.g, bNot(o.need)))
			if !satX(g) {
				continue
			}
			what := ""
			if definite {
				if what = definitely(g); what == "" {
					continue
				}
			}
			f.Verdict = "undecided"
			if definite {
				f.Verdict = "violated"
			}
			f.Where = p.posOf(o.in)
			f.Detail = fmt.Sprintf("%s may panic (%s) at %s in %s: needs %s, reached when %s%s", name, o.kind, p.posOf(o.in), o.fn.Name(), clip(bString(o.need), 300), clip(bString(g), 400), what)
			return true
		}
	}
	return false
}

// definitely: the condition is met on some instance with short lists, whatever
// the values of the atoms the domain knows nothing about.
func definitely(g B) string {
	h := g
	for _, t := range bSupport(g) {
		if t.op == "isnil" && freeCall(t.args[0]) {
			h = bCofactor(h, t, false) // what stands for a function gives something
		} else if unknown(t, true) {
			h = bAnd(bCofactor(h, t, true), bCofactor(h, t, false))
		}
	}
	if h == 0 {
		return ""
	}
	expandLimit = 5
	defer func() { expandLimit = 3 }()
	syms := loopSyms(h)
	if len(syms) > 3 {
		return ""
	}
	for _, k := range [][3]int{{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {1, 1, 1}, {1, 1, 2}, {2, 2, 2}, {1, 2, 2}, {1, 1, 3}, {3, 3, 3}, {1, 3, 3}, {1, 4, 2}, {4, 4, 4}, {1, 5, 2}} {
		n := 1
		for range syms {
			n *= 4
		}
		for c := 0; c < n; c++ {
			m := map[*Term]*Value{}
			for i, x := 0, c; i < len(syms); i, x = i+1, x/4 {
				m[syms[i]] = tv(tInt(int64(x % 4)))
			}
			h := h
			if len(m) > 0 {
				h = newSub(m).b(h)
			}
			h, _, closed := sized(nil, h, k)
			if h == 0 || !closed {
				continue
			}
			for _, t := range bSupport(h) {
				if unknown(t, false) {
					h = bAnd(bCofactor(h, t, true), bCofactor(h, t, false))
				}
			}
			if h == 0 {
				continue
			}
			if open, complete := satX2(h); open && complete {
				return fmt.Sprintf(" (for instance with lists of %d, %d, %d elements)", k[0], k[1], k[2])
			}
		}
	}
	return ""
}

// freeCall: the result of a function nothing is known about.
func freeCall(t *Term) bool {
	r := false
	t.walk(map[*Term]bool{}, func(x *Term) bool {
		r = r || x.op == "call" && strings.Contains(x.str, ".vany")
		return !r
	})
	return r
}

// unknown: the atom may depend on others in ways the domain does not see.
// Before ranges are written out, conditions on their elements are left alone:
// for short ranges they may be decided.
func unknown(a *Term, ranges bool) bool {
	r := false
	inside := false
	if ranges {
		a.walk(map[*Term]bool{}, func(x *Term) bool {
			inside = inside || binderOps[x.op]
			return !inside
		})
	}
	if inside {
		return false
	}
	a.walk(map[*Term]bool{}, func(x *Term) bool {
		switch x.op {
		case "call":
			if strings.Contains(x.str, ".vany") {
				return false // any function: its values are as free as an argument
			}
			r = r || x.str != "strings.Split"
		case "sorted", "fmt", "json", "out", "rec", "invoke", "sqrt", "sin", "cos", "pow", "min", "max", "abs", "substr", "mget", "mhas":
			r = true
		case "poly":
			for _, m := range x.poly {
				if len(m.fs) > 1 || (len(m.fs) == 1 && m.fs[0].e != 1) {
					r = true
				}
			}
		}
		return !r
	})
	return r
}
