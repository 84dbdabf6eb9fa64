package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded, type-checked program in SSA form.
type World struct {
	Dir   string
	Pkg   *packages.Package
	Prog  *ssa.Program
	SSA   *ssa.Package
	built map[*types.Package]bool
	files int
	mu    sync.Mutex
	fns   []*ssa.Function // source functions of the repository package

	instrID map[ssa.Instruction]int
	live    map[*ssa.Function]*liveInfo
}

// fatal ends the run with a failed (never a skipped) check.
type fatal struct{ msg string }

func die(format string, a ...any) { panic(fatal{fmt.Sprintf(format, a...)}) }

// packages whose function bodies are analysed like the repository's own.
var transparent = map[string]bool{
	"github.com/sonirico/vago/slices":  true,
	"github.com/sonirico/vago/streams": true,
	"github.com/sonirico/vago/maps":    true,
	"github.com/sonirico/vago/fp":      true,
	"github.com/sonirico/vago/tuples":  true,
	"slices":                           true,
	"maps":                             true,
	"iter":                             true,
	"cmp":                              true,
}

// A source file that exists only in the analysis: observers written in Go, so
// that loops over results are analysed like any other code.
const harnessFile = "zz_verif_observer.go"

const harnessSrc = `package visigoth

import "github.com/sonirico/vago/streams"

func vgDrain(s streams.ReadStream[SearchResult]) (out []SearchResult) {
	for s.Next() {
		out = append(out, s.Data())
	}
	return out
}
`

func isHarness(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return strings.HasPrefix(fn.Name(), "vg")
}

func loadWorld(dir string) *World {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	harness := filepath.Join(dir, harnessFile)
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env,
		Overlay: map[string][]byte{harness: []byte(harnessSrc)}}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		die("loading %s: %v", dir, err)
	}
	if len(pkgs) == 0 {
		die("no package found in %s", dir)
	}
	w := &World{Dir: dir, instrID: map[ssa.Instruction]int{}, live: map[*ssa.Function]*liveInfo{}}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			die("type-check %s: %v", p.PkgPath, e)
		}
		if p.PkgPath == "github.com/sonirico/visigoth" {
			w.Pkg = p
		}
	}
	if w.Pkg == nil {
		die("package github.com/sonirico/visigoth not found in %s", dir)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	w.Prog = prog
	w.built = map[*types.Package]bool{}
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		if transparent[path] || strings.HasPrefix(path, "github.com/sonirico/visigoth") {
			p.Build()
			w.built[p.Pkg] = true
		}
	}
	w.SSA = prog.Package(w.Pkg.Types)
	w.files = len(w.Pkg.CompiledGoFiles)
	for _, f := range w.Pkg.CompiledGoFiles {
		if strings.HasSuffix(f, "_test.go") || filepath.Base(f) == harnessFile {
			w.files--
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == w.SSA && fn.Synthetic == "" && fn.Blocks != nil && !isHarness(fn) {
			w.fns = append(w.fns, fn)
		}
	}
	sort.Slice(w.fns, func(i, j int) bool { return w.fns[i].Pos() < w.fns[j].Pos() })
	if len(w.fns) < 40 {
		die("only %d functions with bodies found in the package; expected the whole library", len(w.fns))
	}
	return w
}

func (w *World) id(i ssa.Instruction) int {
	if n, ok := w.instrID[i]; ok {
		return n
	}
	n := len(w.instrID) + 1
	w.instrID[i] = n
	return n
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.Prog.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(w.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else if i := strings.Index(f, "/pkg/mod/"); i >= 0 {
		f = f[i+9:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (w *World) ipos(i ssa.Instruction) string {
	p := i.Pos()
	if !p.IsValid() {
		if v, ok := i.(ssa.Value); ok {
			for _, r := range *v.Referrers() {
				if r.Pos().IsValid() {
					p = r.Pos()
					break
				}
			}
		}
	}
	if !p.IsValid() {
		p = i.Parent().Pos()
	}
	return w.pos(p) + " (" + fnName(i.Parent()) + ")"
}

func fnName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	return strings.ReplaceAll(s, "github.com/sonirico/", "")
}

// lookups by type -----------------------------------------------------------

func (w *World) namedType(name string) *types.Named {
	o := w.Pkg.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

func (w *World) mustType(name string) *types.Named {
	n := w.namedType(name)
	if n == nil {
		die("public type %s is gone", name)
	}
	return n
}

func (w *World) mustFunc(name string) *ssa.Function {
	f := w.SSA.Func(name)
	if f == nil || f.Blocks == nil {
		die("public function %s is gone", name)
	}
	return f
}

// method returns the function implementing method name for *T or T.
func (w *World) method(t types.Type, name string) *ssa.Function {
	for _, u := range []types.Type{t, types.NewPointer(t)} {
		ms := w.Prog.MethodSets.MethodSet(u)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return w.Prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func (w *World) mustMethod(typ, name string) *ssa.Function {
	f := w.method(w.mustType(typ), name)
	if f == nil {
		die("public method %s.%s is gone", typ, name)
	}
	return f
}

// exportedMethods lists the exported methods of T and *T (as called on *T).
func (w *World) exportedMethods(n *types.Named) []*ssa.Function {
	var r []*ssa.Function
	ms := w.Prog.MethodSets.MethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			if f := w.Prog.MethodValue(ms.At(i)); f != nil {
				r = append(r, f)
			}
		}
	}
	return r
}

func (w *World) namedTypes() []*types.Named {
	var r []*types.Named
	sc := w.Pkg.Types.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
			if nt, ok := tn.Type().(*types.Named); ok {
				r = append(r, nt)
			}
		}
	}
	return r
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// implementers returns the package's concrete types implementing iface
// (pointer form when only the pointer implements it).
func (w *World) implementers(iface *types.Interface) []types.Type {
	var r []types.Type
	for _, n := range w.namedTypes() {
		if types.IsInterface(n) || n.TypeParams().Len() > 0 {
			continue
		}
		if types.Implements(n, iface) {
			r = append(r, n)
		} else if types.Implements(types.NewPointer(n), iface) {
			r = append(r, types.NewPointer(n))
		}
	}
	return r
}

// liveness ------------------------------------------------------------------

type liveInfo struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool
}

func isReg(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return false
	}
	return v != nil
}

// liveIn is the set of registers live at the start of b (phi operands count
// as live at the end of the predecessors).
func (w *World) liveIn(b *ssa.BasicBlock) map[ssa.Value]bool {
	fn := b.Parent()
	w.mu.Lock()
	defer w.mu.Unlock()
	li := w.live[fn]
	if li == nil {
		li = &liveInfo{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
		for _, b := range fn.Blocks {
			li.in[b] = map[ssa.Value]bool{}
		}
		for changed := true; changed; {
			changed = false
			for i := len(fn.Blocks) - 1; i >= 0; i-- {
				b := fn.Blocks[i]
				live := map[ssa.Value]bool{}
				for _, s := range b.Succs {
					for v := range li.in[s] {
						live[v] = true
					}
					pi := -1
					for k, p := range s.Preds {
						if p == b {
							pi = k
						}
					}
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						delete(live, ph)
					}
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						for k, p := range s.Preds {
							if p == b || k == pi {
								if e := ph.Edges[k]; isReg(e) {
									live[e] = true
								}
							}
						}
					}
				}
				for k := len(b.Instrs) - 1; k >= 0; k-- {
					in := b.Instrs[k]
					if v, ok := in.(ssa.Value); ok {
						delete(live, v)
					}
					if _, ok := in.(*ssa.Phi); ok {
						continue
					}
					for _, op := range in.Operands(nil) {
						if op != nil && *op != nil && isReg(*op) {
							live[*op] = true
						}
					}
				}
				for _, in := range b.Instrs {
					if ph, ok := in.(*ssa.Phi); ok {
						live[ph] = true
					}
				}
				if len(live) != len(li.in[b]) {
					li.in[b] = live
					changed = true
				}
			}
		}
		w.live[fn] = li
	}
	return li.in[b]
}

// lookupMethod is Prog.LookupMethod without the panic.
func (w *World) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := w.Prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return w.Prog.MethodValue(sel)
}
