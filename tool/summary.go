package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Summary is the value graph of one function over symbolic parameters.
type Summary struct {
	fn      *ssa.Function
	params  []*Value
	ret     *Value
	st      *State
	g       B
	obls    []Obl
	fdivs   []Obl
	calls   []callRec
	why     string // undecided
	visited map[*ssa.Function]bool
	loops   int
	budget  int
}

func symParams(sig *types.Signature) []*Value {
	var out []*Value
	i := 0
	add := func(t types.Type) {
		out = append(out, dec(tSym("p"+itoa(i)), t))
		i++
	}
	if r := sig.Recv(); r != nil {
		add(r.Type())
	}
	for k := 0; k < sig.Params().Len(); k++ {
		add(sig.Params().At(k).Type())
	}
	return out
}

var (
	debugPanic  = false
	effortLimit = 600000
	stepLimit   = 40000
)

// Time limits: a rule that takes longer is undecided. They only ever turn a
// verdict into "undecided".
var (
	ruleSeconds  = 60.0
	checkSeconds = 420.0
	ruleDeadline time.Time
	checkStart   = time.Now()
	ticks        int
)

func startRule() {
	d := ruleSeconds
	if left := checkSeconds - time.Since(checkStart).Seconds(); left < d {
		d = left
	}
	ruleDeadline = time.Now().Add(time.Duration(d * float64(time.Second)))
}

func tick() {
	if ticks++; ticks&31 == 0 && !ruleDeadline.IsZero() && time.Now().After(ruleDeadline) {
		giveUp("time budget exhausted")
	}
}

func summarise(p *Program, base *Interp, f *ssa.Function, params []*Value) (s *Summary) {
	ip := newInterp(p)
	ip.globals = base.globals
	ip.gstate = base.gstate
	s = &Summary{fn: f}
	if params == nil {
		params = symParams(f.Signature)
	}
	s.params = params
	depth := len(pathCond)
	defer func() {
		s.obls, s.fdivs, s.calls, s.visited, s.loops = ip.obls, ip.fdivs, ip.calls, ip.visited, ip.loopsSeen
		if r := recover(); r != nil {
			pathCond = pathCond[:depth]
			encIter = 1 << 30
			u, ok := r.(undecided)
			if !ok {
				if debugPanic {
					panic(r)
				}
				s.why = fmt.Sprintf("internal: %v", r)
				return
			}
			s.why = u.why
			if len(ip.stack) > 0 {
				s.why += " (in " + ip.stack[len(ip.stack)-1].String() + ")"
			}
		}
	}()
	effort, effortOn = effortLimit, true
	defer func() { effortOn = false }()
	r := ip.call(f, params, nil, newState())
	s.ret, s.st, s.g = r.ret, r.st, r.g
	s.budget = ip.budget
	return
}

func showV(v *Value, st *State) string {
	if v == nil {
		return "<undef>"
	}
	var out []string
	for _, a := range v.alts {
		var s string
		switch x := a.a.(type) {
		case TermA:
			s = x.t.String()
		case BoolA:
			s = bString(x.b)
		case TupleA:
			var ps []string
			for _, f := range x.vs {
				ps = append(ps, showV(f, st))
			}
			s = "(" + strings.Join(ps, "; ") + ")"
		case StructA:
			var ps []string
			for _, f := range x.fs {
				ps = append(ps, showV(f, st))
			}
			s = "{" + strings.Join(ps, ", ") + "}"
		default:
			save := encIter
			encIter = 0
			s = func() (r string) {
				defer func() {
					if e := recover(); e != nil {
						r = fmt.Sprint("<", e, ">")
					}
				}()
				return enc(one(a.a), st).String()
			}()
			encIter = save
		}
		if a.g != 1 {
			s = "[" + bString(a.g) + "] " + s
		}
		out = append(out, s)
	}
	return strings.Join(out, "\n   | ")
}

func (s *Summary) String(p *Program) string {
	var b strings.Builder
	if s.why != "" {
		fmt.Fprintln(&b, "UNDECIDED:", s.why)
		return b.String()
	}
	fmt.Fprintln(&b, "g  :", bString(s.g))
	fmt.Fprintln(&b, "ret:", showV(s.ret, s.st))
	for _, o := range sortedObjs(s.st.m) {
		if o.sym != nil || o.glob != nil {
			fmt.Fprintln(&b, "mem:", o.name, "=", showV(s.st.m[o], s.st))
		}
	}
	for _, o := range s.obls {
		fmt.Fprintln(&b, "obl:", o.kind, p.posOf(o.in), "need", bString(o.need), "when", bString(o.g), "=>", obligationOK(o))
	}
	return b.String()
}

func obligationOK(o Obl) bool { return !sat(bAnd(o.g, bNot(o.need))) }
