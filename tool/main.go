package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: geoverif check <id> | rules [id|name...] | dump <fn>...")
		os.Exit(2)
	}
	if pf := os.Getenv("GV_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	debugPanic = os.Getenv("GV_DEBUG") != ""
	switch os.Args[1] {
	case "dump":
		dumpCmd(os.Args[2:])
	case "rules":
		rulesCmd(os.Args[2:])
	case "all":
		rulesCmd(os.Args[2:])
		engineCmd(os.Args[2:])
	case "engine":
		engineCmd(os.Args[2:])
	case "panics":
		panicsCmd(os.Args[2:])
	case "effects":
		effectsCmd(os.Args[2:])
	case "check":
		os.Exit(checkCmd(os.Args[2:]))
	}
}

func rulesCmd(names []string) {
	p, rules, dropped, err := loadWithSpecs()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	ip := newInterp(p)
	ip.runInit()
	cnt := map[string]int{}
	for _, r := range rules {
		if len(names) > 0 {
			ok := false
			for _, n := range names {
				ok = ok || n == r.prop || n == r.target || n == r.fname
			}
			if !ok {
				continue
			}
		}
		t0 := time.Now()
		f := decideRule(p, ip, r, dropped)
		cnt[f.Verdict]++
		fmt.Printf("%-9s %s %s [%s] %.1fs %s\n", f.Verdict, f.Prop, f.Key, f.Where, time.Since(t0).Seconds(), f.Detail)
	}
	fmt.Println(cnt)
}

// engineCmd runs the obligations of the other engines.
func engineCmd(props []string) {
	p, rules, _, err := loadWithSpecs()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	ip := newInterp(p)
	ip.runInit()
	var ids []string
	for id := range engineRules {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		if len(props) > 0 && !strings.Contains(" "+strings.Join(props, " ")+" ", " "+id+" ") {
			continue
		}
		c := &Ctx{p: p, base: ip, rules: rules, prop: id, tier: "quick", shared: map[string]interface{}{}}
		for _, f := range engineRules[id] {
			for _, x := range safely(c, f) {
				fmt.Printf("%-9s %s %s [%s] %s\n", x.Verdict, x.Prop, x.Key, x.Where, x.Detail)
			}
		}
	}
}

func dumpCmd(names []string) {
	p, _, _, err := loadWithSpecs()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	ip := newInterp(p)
	ip.runInit()
	if names[0] == "all" {
		ok, bad := 0, 0
		for _, f := range p.funcs() {
			if f.Name() == "init" {
				continue
			}
			if strings.Contains(f.String(), "Rtree") || strings.Contains(f.String(), "geo.node)") || strings.Contains(f.String(), "geo.entry") {
				continue
			}
			t0 := time.Now()
			s := summarise(p, ip, f, nil)
			if d := time.Since(t0); d > time.Second {
				fmt.Println("SLOW", f, d)
			}
			if s.why != "" {
				bad++
				fmt.Println("UNDECIDED", f, ":", s.why)
			} else {
				ok++
			}
		}
		fmt.Println(ok, bad)
		return
	}
	for _, n := range names {
		f := p.fn(n)
		if f == nil {
			fmt.Println("no function", n)
			continue
		}
		s := summarise(p, ip, f, nil)
		fmt.Println("==", f)
		fmt.Println(s.String(p))
	}
}

// effectsCmd prints what Engine B finds for functions.
func effectsCmd(names []string) {
	p, _, _, err := loadWithSpecs()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, f := range p.funcs() {
		if f.Parent() != nil || f.Name() == "init" {
			continue
		}
		if len(names) > 0 {
			ok := false
			for _, n := range names {
				ok = ok || strings.Contains(f.String(), n)
			}
			if !ok {
				continue
			}
		}
		t0 := time.Now()
		a := p.analyseB(f)
		fmt.Printf("== %s ctx=%d steps=%d over=%v %.2fs\n", relName(f), len(a.order), a.steps, a.over, time.Since(t0).Seconds())
		for _, e := range sortedEvents(a) {
			if e.o.kind == "param" || e.o.kind == "global" || e.o.kind == "ext" {
				fmt.Printf("   %s %s %s%s @ %s  %s\n", e.kind, e.o.kind, e.o.name, e.path, p.posOf(e.at), a.trace(e))
			}
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			for o := range a.resultReach(i) {
				if o.kind == "param" || o.kind == "global" {
					fmt.Printf("   result %d shares %s %s\n", i, o.kind, o.name)
				}
			}
		}
		for n, in := range a.externs {
			fmt.Printf("   extern %s @ %s\n", n, p.posOf(in))
		}
		for n, in := range a.ambient {
			fmt.Printf("   ambient %s @ %s\n", n, p.posOf(in))
		}
	}
}
