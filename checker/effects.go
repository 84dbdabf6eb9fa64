package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Effect analysis: constructs through which a function may give different
// results for the same arguments.

// pure: packages whose functions only depend on their arguments.
var pure = map[string]bool{"strings": true, "strconv": true, "bytes": true, "unicode": true, "unicode/utf8": true,
	"math": true, "math/bits": true, "sort": true, "slices": true, "cmp": true, "errors": true}

// varies finds a construct reachable from fn through which its result may
// depend on more than its arguments and what the interface given answers; it
// returns the number of functions looked at.
func (w *World) varies(fn *ssa.Function, given *types.Named) (why string, n int) {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	note := func(i ssa.Instruction, f string) {
		if why == "" {
			why = fmt.Sprintf("%s at %s", f, w.ipos(i))
		}
	}
	visit = func(f *ssa.Function) {
		if seen[f] || why != "" {
			return
		}
		seen[f] = true
		n++
		if len(f.Blocks) == 0 {
			why = "the function " + f.String() + " has no source"
			return
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Range:
					if _, ok := i.X.Type().Underlying().(*types.Map); ok {
						note(i, "the order of a map")
					}
				case *ssa.Go, *ssa.Select, *ssa.Send:
					note(i, "concurrency")
				case *ssa.UnOp:
					if i.Op.String() == "<-" {
						note(i, "concurrency")
					}
				case *ssa.MakeClosure:
					visit(i.Fn.(*ssa.Function))
				case *ssa.Convert:
					if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
						note(i, "an address")
					}
				}
				for _, o := range i.Operands(nil) {
					switch v := (*o).(type) {
					case *ssa.Global:
						note(i, "the variable "+v.Name())
					case *ssa.Function:
						if c, ok := i.(ssa.CallInstruction); !ok || c.Common().StaticCallee() != v {
							if len(v.Blocks) > 0 {
								visit(v)
							}
						}
					}
				}
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				switch {
				case cc.IsInvoke():
					if !types.Identical(cc.Value.Type(), given) {
						note(i, "a call of "+cc.Method.Name()+" of an unknown type")
					}
				case cc.StaticCallee() != nil:
					g := cc.StaticCallee()
					if p := g.Package(); p != nil && pure[p.Pkg.Path()] || g.Origin() != nil && g.Origin().Package() != nil && pure[g.Origin().Package().Pkg.Path()] {
						for _, a := range cc.Args {
							if mi, ok := a.(*ssa.MakeInterface); ok {
								w.methodsOf(mi.X.Type(), visit)
							}
						}
						continue
					}
					visit(g)
				default:
					if _, ok := cc.Value.(*ssa.Builtin); !ok {
						note(i, "a call of an unknown function")
					}
				}
			}
		}
	}
	visit(fn)
	return why, n
}

// methodsOf visits the methods that a callee may call back.
func (w *World) methodsOf(t types.Type, visit func(*ssa.Function)) {
	ms := w.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if f := w.Prog.MethodValue(ms.At(i)); f != nil && len(f.Blocks) > 0 {
			visit(f)
		}
	}
}
