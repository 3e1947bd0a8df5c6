package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	debug_ "runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

// onlyFns restricts the whole-interface properties while debugging.
var onlyFns *regexp.Regexp

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	dump := flag.String("dump", "", "function to analyse and print")
	add := flag.String("add", "", "extra source file for package indicators (debugging)")
	debug := flag.Bool("debug", false, "print loop models")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	limit := flag.Int("limit", 0, "stop after so many seconds (with -cpuprofile)")
	prop := flag.String("property", "", "property to decide")
	root := flag.String("root", "/verif", "directory of evidence and known findings")
	only := flag.String("only", "", "exported functions to look at (debugging)")
	verbose := flag.Bool("v", false, "print the abstract state of failed obligations")
	flag.Parse()
	debug_.SetGCPercent(500)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
		if *limit > 0 {
			go func() {
				time.Sleep(time.Duration(*limit) * time.Second)
				pprof.StopCPUProfile()
				fmt.Println("limit; FM calls", fmCalls, "slow", fmSlow)
				os.Exit(3)
			}()
		}
	}
	debugAll = *debug
	if *only != "" {
		onlyFns = regexp.MustCompile(*only)
	}
	if *prop != "" {
		tier := os.Getenv("VERIF_TIER")
		if tier == "" {
			tier = "quick"
		}
		code := 0
		for _, id := range strings.Split(*prop, ",") {
			if r := runProperty(id, tier, *repo, *root, *verbose); r > code {
				code = r
			}
		}
		os.Exit(code)
	}
	if *dump != "" {
		ov := map[string][]byte{}
		if *add != "" {
			b, err := os.ReadFile(*add)
			if err != nil {
				panic(err)
			}
			ov[*repo+"/indicators/zz_extra.go"] = b
		}
		p, err := loadProg(*repo, ov)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, n := range strings.Split(*dump, ",") {
			dumpFn(p, n, *debug)
		}
		return
	}
}

func dumpFn(p *Prog, name string, debug bool) {
	fn := p.fn(name)
	if fn == nil {
		fmt.Println("no function", name)
		return
	}
	t0 := time.Now()
	e := newEng(p)
	e.debug = debug
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				fmt.Println("== ", name, "UNDECIDED", u.msg)
				return
			}
			panic(r)
		}
	}()
	st := e.newState()
	var args []V
	for _, q := range fn.Params {
		args = append(args, st.entryV(q.Type(), q.Name(), true))
	}
	rets := e.inline(fn, args, nil, st)
	fmt.Printf("== %s: %d outcomes, %d loops, %v\n", name, len(rets), e.loopCount, time.Since(t0))
	for i, r := range rets {
		fmt.Printf("-- outcome %d at %s\n%s", i, r.exit, r.dump())
	}
	for _, k := range e.oblOrder {
		o := e.obl[k]
		if !o.ok {
			fmt.Printf("  OBL FAIL %s %s: %s\n", o.kind, o.where, o.why)
		}
	}
	fmt.Printf("  obligations %d\n", len(e.obl))
}
