package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gov try NAME... | check PROP | props")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "try":
		try(os.Args[2:])
	case "root":
		rootCmd(os.Args[2])
	case "replay":
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		f, t := runReplay(os.Args[2], replayTests(os.Args[2]), nil, seed, 20*time.Second)
		fmt.Println(f, t)
	case "check":
		os.Exit(check(os.Args[2]))
	}
}

func repoDir() string {
	if d := os.Getenv("GOV_REPO"); d != "" {
		return d
	}
	return "/repo"
}
func verifDir() string {
	if d := os.Getenv("GOV_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func mustLoad() *Loader {
	cd := os.Getenv("GOV_CONTRACTS")
	if cd == "" {
		cd = verifDir() + "/contracts"
	}
	L, err := Load(repoDir(), cd)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	return L
}

// try proves the contracts whose names contain one of the words, or of a property.
func try(words []string) {
	t0 := time.Now()
	L := mustLoad()
	fmt.Printf("loaded in %v\n", time.Since(t0))
	for _, d := range L.dropped {
		fmt.Println("DROPPED", d)
	}
	t0 = time.Now()
	L.runInit()
	fmt.Printf("init in %v: %v\n", time.Since(t0), L.initErr)
	for _, c := range L.roots() {
		hit := false
		for _, w := range words {
			hit = hit || strings.Contains(rootID(c), w) || c.hasProp(w)
		}
		if !hit {
			continue
		}
		r := L.verify(c)
		ms := 20000
		if c.Timeout > 0 {
			ms = c.Timeout * 1000
		}
		t1 := time.Now()
		if r.x != nil {
			solveAll(r.x, r.Obls, ms)
		}
		fmt.Printf("%s: err=%q gen %dms solve %v feas %d/%dms paths %d obls %d\n", r.Name, r.Err, r.Ms, time.Since(t1), r.x.feas.calls, r.x.feas.ms, r.Paths, len(r.Obls))
		for _, o := range r.Obls {
			if o.Status != "proved" || os.Getenv("GOV_ALL") != "" {
				fmt.Printf("   %-8s %-8s %6dms [%s] %s  %s\n", o.Status, o.Solver, o.Ms, o.Kind, o.Name, o.Detail)
				if o.Status != "proved" && o.Out != "" {
					fmt.Printf("        %.200s\n", o.Out)
				}
			}
		}
		if os.Getenv("GOV_FACTS") != "" {
			for _, o := range r.Obls {
				if o.Status != "proved" {
					dumpObl(r.x, o)
					break
				}
			}
		}
		for _, rp := range r.Reaches {
			if unsatFacts(r.x, rp.facts, 2000) {
				fmt.Printf("   VACUOUS %s\n", rp.name)
				if os.Getenv("GOV_VAC") != "" {
					for _, f := range rp.facts {
						fmt.Println("     ", f)
					}
				}
			}
		}
		var ns []string
		for n := range r.x.notes {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			fmt.Println("   note:", n)
		}
	}
	fmt.Println(sortedTimes())
}

func dumpObl(x *Exec, o *Obligation) {
	fmt.Println("--- facts of", o.Name)
	for _, f := range o.Facts {
		fmt.Println("   ", f)
	}
	fmt.Println("   GOAL", o.Goal)
	if x != nil {
		for _, t := range x.closeTerms(append(append([]*Term{}, o.Facts...), o.Goal), 1)[len(o.Facts)+1:] {
			fmt.Println("   AX", t)
		}
	}
}
