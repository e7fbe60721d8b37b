package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	dump := flag.String("dump", "", "pkg.Recv.Name: print the path summary of a function")
	check := flag.String("check", "", "property to check, or all")
	verif := flag.String("verif", "/verif", "")
	tier := flag.String("tier", "quick", "quick or thorough")
	opaque := flag.String("opaque", "", "comma separated functions that -dump does not inline")
	only := flag.Int("path", -1, "print only this path")
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	started := time.Now()
	p, err := loadProgram(*repo)
	if *check != "" {
		rc, n := 0, 0
		for _, ck := range checks {
			if *check == "all" || *check == ck.ID {
				n++
				if runCheck(p, ck, *tier == "thorough", *verif, err, started) != 0 {
					rc = 1
				}
				started = time.Now()
			}
		}
		if n == 0 {
			fmt.Fprintln(os.Stderr, "unknown property", *check)
			os.Exit(2)
		}
		os.Exit(rc)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *dump != "" {
		s := strings.Split(*dump, ".")
		var fn *ssa.Function
		if len(s) == 2 {
			fn = p.fn(s[0], "", s[1])
		} else {
			fn = p.fn(s[0], s[1], s[2])
		}
		if fn == nil {
			fmt.Println("not found")
			os.Exit(2)
		}
		e := newEngine(p)
		e.noInline = func(f *ssa.Function) bool {
			for _, n := range strings.Split(*opaque, ",") {
				if n != "" && p.funcName(f) == n || n == "runtime" && boundary(fn.Pkg)(f, p.funcName(f)) {
					return true
				}
			}
			return false
		}
		paths := e.analyze(fn)
		if *only >= 0 {
			paths = paths[*only : *only+1]
		}
		dumpPaths(p, paths, "")
		fmt.Println(len(paths), "paths", e.steps, "steps", e.nEvents, "events")
		return
	}
}

func dumpPaths(p *Program, paths []*Path, ind string) {
	for i, pt := range paths {
		fmt.Printf("%s--- path %d %s %s\n", ind, i, pt.Kind, p.pos(pt.Pos))
		fi := pt.Base
		for _, ev := range pt.Events {
			for ; fi < ev.NFacts && fi < len(pt.Facts); fi++ {
				fmt.Printf("%s   ? %s\n", ind, pt.Facts[fi])
			}
			switch ev.Kind {
			case "access", "use", "bounds", "enter", "make", "slicebounds":
				continue
			case "loop":
				fmt.Printf("%s   loop %s %s\n", ind, ev.Loop.ID, p.pos(ev.Loop.Pos))
				for _, ph := range ev.Loop.Phis {
					fmt.Printf("%s      phi %s init=%s backs=%v\n", ind, ph.Name, ph.Init, ph.Backs)
				}
				fmt.Printf("%s      mod %v\n", ind, ev.Loop.Mod)
				dumpPaths(p, ev.Loop.Bodies, ind+"      ")
			case "go":
				fmt.Printf("%s   go %s\n", ind, ev.Fn)
				dumpPaths(p, ev.Bodies, ind+"      ")
			default:
				pu := ""
				if ev.Pure {
					pu = "~"
					continue
				}
				fmt.Printf("%s   %s%s %s %v %s => %v  @%s\n", ind, pu, ev.Kind, ev.Fn, ev.Args, ev.Extra, ev.Res, p.pos(ev.Pos))
			}
		}
		for ; fi < len(pt.Facts); fi++ {
			fmt.Printf("%s   ? %s\n", ind, pt.Facts[fi])
		}
		fmt.Printf("%s   = %v\n", ind, pt.Results)
	}
}

var _ = sort.Strings
