package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa/ssautil"
)

var verbose = flag.Bool("v", false, "verbose")

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "output directory")
	prop := flag.String("prop", "", "property id")
	dump := flag.String("dump", "", "print the SSA of a function")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(memLimit)
	go watchMemory()
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	if *dump != "" {
		w := loadWorld(*repo)
		for fn := range ssautil.AllFunctions(w.Prog) {
			if fn.Pkg == w.SSA && fn.Name() == *dump || fn.String() == *dump {
				fn.WriteTo(os.Stdout)
				for _, a := range fn.AnonFuncs {
					a.WriteTo(os.Stdout)
				}
			}
		}
		return
	}
	if f := os.Getenv("VG_PROF"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
		time.AfterFunc(100*time.Second, pprof.StopCPUProfile)
	}
	code := 0
	var world *World
	for _, p := range strings.Split(*prop, ",") {
		c, ok := checks[p]
		if !ok {
			fmt.Println("unknown property", p)
			os.Exit(2)
		}
		r := newReport(p)
		func() {
			defer func() {
				if x := recover(); x != nil {
					if f, ok := x.(fatal); ok {
						r.undecided("analysis", "-", "%s", f.msg)
					} else {
						r.unknown("analysis", "-", "internal error: %v\n%s", x, debug.Stack())
					}
				}
				if n := r.finish(*verif, start, tier); n > code {
					code = n
				}
			}()
			if world == nil {
				world = loadWorld(*repo)
			}
			c(world, r)
			r.wg.Wait()
		}()
	}
	os.Exit(code)
}

func init() { checks["C32"] = checkC32 }

var checks = map[string]func(*World, *Report){
	"C01": checkLocks, "C02": checkLocks, "C03": checkLocks, "C04": checkLocks, "C05": checkC05, "C06": checkLocks,
	"C07": checkC07, "C08": checkC08, "C09": checkC09, "C10": checkC10, "C11": checkC11, "C12": checkC12, "C13": checkC13,
	"C14": checkC14, "C15": checkC15, "C16": checkC16, "C17": checkC17, "C18": checkC18, "C19": checkC19, "C20": checkC20, "C21": checkC21, "C22": checkC22, "C23": checkC23, "C24": checkC24, "C25": checkC25,
	"C26": checkC26, "C27": checkC27, "C28": checkC28, "C29": checkC29,
	"C30": checkC30, "C31": checkC31,
}
