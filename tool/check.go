package main

// The check driver: gathers the obligations of one property from all engines,
// compares violations with the committed known findings, writes the evidence.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// engineRules: further obligations, per property, that are not reference
// functions (effects, ownership, dispatch, R-tree rules ...).
var engineRules = map[string][]func(*Ctx) []Finding{}

type Ctx struct {
	p       *Program
	base    *Interp
	rules   []SpecRule
	prop    string
	tier    string
	shared  map[string]interface{}
	sites   int
	notes   []string
	summary map[string]int
}

func register(prop string, f func(*Ctx) []Finding) {
	engineRules[prop] = append(engineRules[prop], f)
}

func verifDir() string {
	if d := os.Getenv("GEO_VERIF"); d != "" {
		return d
	}
	return filepath.Dir(specDir())
}

type knownFinding struct{ prop, key, what string }

// known_findings.txt: "known: property=<id> key=<obligation key> <what fails>"
// and "fixed: property=<id> <commit> <what failed>" (suppresses nothing).
func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		w := strings.Fields(strings.TrimPrefix(l, "known:"))
		if len(w) < 3 || !strings.HasPrefix(w[0], "property=") || !strings.HasPrefix(w[1], "key=") {
			continue
		}
		out = append(out, knownFinding{strings.TrimPrefix(w[0], "property="), strings.TrimPrefix(w[1], "key="), strings.Join(w[2:], " ")})
	}
	return out
}

func gather(prop string, p *Program, base *Interp, rules []SpecRule, dropped map[string]string, tier string) []Finding {
	var out []Finding
	for _, r := range rules {
		if r.prop == prop {
			out = append(out, decideRule(p, base, r, dropped))
		}
	}
	c := &Ctx{p: p, base: base, rules: rules, prop: prop, tier: tier, shared: map[string]interface{}{}}
	for _, f := range engineRules[prop] {
		out = append(out, safely(c, f)...)
	}
	return out
}

func safely(c *Ctx, f func(*Ctx) []Finding) (out []Finding) {
	defer func() {
		if r := recover(); r != nil {
			if debugPanic {
				panic(r)
			}
			out = append(out, Finding{Prop: c.prop, Rule: "engine", Key: "engine", Verdict: "undecided", Detail: fmt.Sprint(r)})
		}
	}()
	return f(c)
}

func checkCmd(args []string) int {
	if len(args) < 1 {
		fmt.Println("check <property>")
		return 2
	}
	prop := args[0]
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	for _, a := range args[1:] {
		if a == "quick" || a == "thorough" {
			tier = a
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if tier == "thorough" {
		effortLimit *= 4
		stepLimit *= 4
		ruleSeconds, checkSeconds = 180, 600
	}
	t0 := time.Now()
	p, rules, dropped, err := loadWithSpecs()
	if err != nil {
		fmt.Println("cannot load the program:", err)
		return 2
	}
	base := newInterp(p)
	base.runInit()
	fs := gather(prop, p, base, rules, dropped, tier)
	return report(prop, tier, seed, t0, fs, p)
}

func report(prop, tier string, seed int, t0 time.Time, fs []Finding, p *Program) int {
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].Key < fs[j].Key })
	known := loadKnown()
	var viol, und, knownHit []Finding
	holds, sites := 0, 0
	byRule := map[string]int{}
	var samples []string
	var constructs []string
	for _, f := range fs {
		sites += f.Sites
		byRule[f.Rule]++
		switch f.Verdict {
		case "holds":
			holds++
			if len(samples) < 12 {
				samples = append(samples, f.Key+" @ "+f.Where)
			}
		case "undecided":
			und = append(und, f)
		case "violated":
			hit := false
			for _, k := range known {
				if k.prop == prop && k.key == f.Key {
					hit = true
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, k.what, f.Where)
				}
			}
			if hit {
				knownHit = append(knownHit, f)
			} else {
				viol = append(viol, f)
			}
		}
		constructs = append(constructs, f.Key)
	}
	for _, f := range und {
		fmt.Printf("undecided: %s [%s] %s\n", f.Key, f.Where, clip(f.Detail, 300))
	}
	evDir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evDir, 0o755)
	replay := filepath.Join(evDir, prop+".violation.txt")
	os.Remove(replay)
	if len(viol) > 0 {
		var b strings.Builder
		for _, f := range viol {
			s := fmt.Sprintf("%s: rule %s, %s at %s\n  %s\n", prop, f.Rule, f.Key, f.Where, f.Detail)
			b.WriteString(s)
			fmt.Print(s)
		}
		fmt.Fprintf(&b, "replay: cd /verif && ./check.sh %s %s\n", prop, tier)
		os.WriteFile(replay, []byte(b.String()), 0o644)
	}
	var undKeys []string
	for _, f := range und {
		undKeys = append(undKeys, f.Key+": "+clip(f.Detail, 200))
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":          "static analysis of /repo's current source: every obligation is decided on the type-checked SSA form, none is executed",
			"obligations":          len(fs),
			"discharged":           holds,
			"undecided":            len(und),
			"known_findings":       len(knownHit),
			"proof_steps":          sites,
			"obligations_by_rule":  byRule,
			"functions_in_program": len(p.funcs()),
			"samples":              samples,
			"constructs":           constructs,
			"undecided_list":       undKeys,
		},
		"assumptions": []string{
			"float64 arithmetic is treated as exact real arithmetic, NaN inputs excluded",
			"library functions have the behaviour of their models in tool/extern.go or are uninterpreted pure functions",
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d obligations, %d hold, %d undecided, %d known, %d violated (%.1fs)\n", prop, len(fs), holds, len(und), len(knownHit), len(viol), time.Since(t0).Seconds())
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	}
	return 0
}
