package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

// unit is one function or lemma to verify.
type unit struct {
	key  string
	con  *Contract
	lem  *AxiomDef
	ctx  *Ctx
	gen  float64
	only string // only obligations of this kind
}

func (u *unit) generate(p *Prog, s *Specs, eff *Effects, pkgFuncs map[string]int) {
	t0 := time.Now()
	x := newCtx(p, s, u.key)
	x.effects = eff
	u.ctx = x
	x.guardRun(func() {
		if u.lem != nil {
			x.verifyLemma(u.lem)
			x.finish(u.lem.Uses, u.lem)
			return
		}
		fn := p.allFuncsCached()[u.key]
		if fn == nil {
			x.fail("function %s not found in the source", u.key)
		}
		x.verify(fn, u.con)
		x.finish(u.con.Uses, nil)
	})
	u.gen = time.Since(t0).Seconds()
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gocv check|vc|list|ssa ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(os.Args[2:]))
	case "vc":
		devVC(os.Args[2:])
	case "list":
		p, err := load("/repo", map[string]bool{"match": true, "licensecheck": true, "old": true})
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, k := range sortedKeys(p.allFuncs()) {
			fmt.Println(k)
		}
	case "locals":
		p, err := load("/repo", map[string]bool{"match": true, "licensecheck": true, "old": true})
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		s, err := loadSpecs(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		printLocals(p, s)
	case "ssa":
		p, err := load("/repo", map[string]bool{"match": true, "licensecheck": true, "old": true})
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		p.allFuncs()[os.Args[2]].WriteTo(os.Stdout)
	}
}

// devVC verifies functions and prints every undischarged obligation.
func devVC(args []string) {
	fs := flag.NewFlagSet("vc", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	specs := fs.String("specs", "/verif/contracts", "")
	match := fs.String("f", "", "comma-separated function keys (suffix match with *)")
	dump := fs.String("dump", "", "directory for queries")
	scale := fs.Float64("t", 1, "time scale")
	verbose := fs.Bool("v", false, "print all")
	only := fs.String("o", "", "obligation substring")
	gen := fs.Bool("gen", false, "only generate")
	fs.Parse(args)
	t0 := time.Now()
	p, err := load(*repo, map[string]bool{"match": true, "licensecheck": true, "old": true})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	s, err := loadSpecs(*specs)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("load %.2fs\n", time.Since(t0).Seconds())
	eff := newEffects(p, s)
	if *dump != "" {
		os.MkdirAll(*dump, 0o755)
	}
	var units []*unit
	want := func(k string) bool {
		if *match == "" {
			return true
		}
		for _, m := range strings.Split(*match, ",") {
			if m == k || strings.HasSuffix(k, "."+m) || strings.HasSuffix(m, "*") && strings.HasPrefix(k, m[:len(m)-1]) {
				return true
			}
		}
		return false
	}
	for _, k := range sortedKeys(s.funcs) {
		if c := s.funcs[k]; c.Kind == "func" && want(k) {
			units = append(units, &unit{key: k, con: c})
		}
	}
	for _, a := range s.axioms {
		if a.Kind == "lemma" && want("lemma."+a.Name) {
			units = append(units, &unit{key: "lemma." + a.Name, lem: a})
		}
	}
	var all []*Obl
	for _, u := range units {
		u.generate(p, s, eff, nil)
		for _, o := range u.ctx.obls {
			if *only == "" || strings.Contains(o.Name, *only) {
				all = append(all, o)
			}
		}
	}
	fmt.Printf("generated %d obligations in %d units, %.2fs\n", len(all), len(units), time.Since(t0).Seconds())
	if *gen {
		if *dump != "" {
			for _, o := range all {
				o.dump(*dump, o.query())
			}
		}
		return
	}
	solveAll(all, 8, *scale, *dump)
	bad := 0
	for _, o := range all {
		if o.Status != "proved" {
			bad++
		}
		if o.Status != "proved" || *verbose {
			fmt.Printf("%-8s %6.2fs %-12s %s  [%s]\n    %s\n", o.Status, o.Time, o.Solver, o.Name, o.Pos, o.Src)
			if o.Status != "proved" {
				fmt.Println("    " + strings.ReplaceAll(strings.TrimSpace(o.Out), "\n", "\n    "))
			}
		}
	}
	for _, u := range units {
		if *verbose {
			for _, k := range sortedKeys(u.ctx.trusted) {
				fmt.Println("trusted", u.key, ":", k)
			}
		}
	}
	fmt.Printf("%d obligations, %d not discharged, %.1fs\n", len(all), bad, time.Since(t0).Seconds())
	if bad > 0 {
		os.Exit(1)
	}
}
