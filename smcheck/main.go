package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
)

type checkFn func(p *Program, r *Report)

var checks = map[string]checkFn{}

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verif dir")
	val := flag.String("val", "", "debug: compare a value")
	tier := flag.String("tier", "quick", "tier")
	dump := flag.String("dump", "", "debug dump")
	eval := flag.String("eval", "", "debug: evaluate a function")
	flag.Parse()
	p, err := Load(*repo)
	if *dump != "" {
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		debugDump(p, *dump)
		return
	}
	if *eval != "" {
		for _, w := range strings.Fields(*eval) {
			fmt.Println("=====", w)
			debugEval(p, w)
		}
		return
	}
	if *val == "acc" {
		debugAcc(p)
		return
	}
	if *val != "" {
		debugValue(p, *val)
		return
	}
	ids := strings.Split(*prop, ",")
	code := 0
	for _, id := range ids {
		r := NewReport(id, *tier)
		if err != nil {
			r.Explain = "the repository could not be loaded"
			r.Bad("load", "repository", "-", err.Error())
		} else if f := checks[id]; f == nil {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		} else {
			func() {
				defer func() {
					if x := recover(); x != nil {
						r.Bad("analysis-complete", "checker", "-", fmt.Sprintf("the analysis did not complete: %v\n%s", x, debug.Stack()))
					}
				}()
				f(p, r)
				checkNeeds(p, r)
			}()
		}
		if c := r.Finish(*verif); c > code {
			code = c
		}
	}
	os.Exit(code)
}
