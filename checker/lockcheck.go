package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// holdsMutex tells whether values of t contain a lock (directly, through
// pointers to structs of the package, or by value).
func holdsMutex(t types.Type, seen map[types.Type]bool) bool {
	t = types.Unalias(t)
	if seen[t] {
		return false
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
		return n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex"
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return holdsMutex(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsMutex(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

type lockRun struct {
	e     *lockEngine
	ops   []*ssa.Function
	ctors []*ssa.Function
	kind  map[*ssa.Function]string
}

func (w *World) lockEntries() (ops []*ssa.Function, ctorOf map[*ssa.Function]*ssa.Function) {
	ctorOf = map[*ssa.Function]*ssa.Function{}
	for _, n := range w.namedTypes() {
		if types.IsInterface(n) || !n.Obj().Exported() || !holdsMutex(n, map[types.Type]bool{}) {
			continue
		}
		var ctor *ssa.Function
		for _, m := range w.SSA.Members {
			f, ok := m.(*ssa.Function)
			if !ok || f.Object() == nil || !f.Object().Exported() || f.Blocks == nil {
				continue
			}
			rs := f.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				if types.Identical(deref(rs.At(i).Type()), n) && (ctor == nil || f.Pos() < ctor.Pos()) {
					ctor = f
				}
			}
		}
		for _, f := range w.exportedMethods(n) {
			ops = append(ops, f)
			ctorOf[f] = ctor
		}
	}
	return
}

func (w *World) runLocks() *lockEngine {
	ops, ctorOf := w.lockEntries()
	if len(ops) == 0 {
		die("no exported type with a lock found: the repository type is gone")
	}
	var guards map[string][]string
	var e *lockEngine
	for pass := 0; pass < 2; pass++ {
		e = newLockEngine(w)
		e.guards = guards
		for _, op := range ops {
			ctor := ctorOf[op]
			if ctor == nil {
				die("no public constructor for the receiver of %s", fnName(op))
			}
			e.nOps++
			e.over, e.opStart = false, e.steps
			e.op = fnName(op)
			if op.Object() != nil {
				e.op = op.Name()
			}
			st := &lstate{cells: map[string][]lv{}, ren: map[string]string{}}
			e.prefix = "R#"
			e.guards = nil
			save := e.events
			e.events = map[string]levent{}
			var args []lv
			for _, p := range ctor.Params {
				v := lv{it: ifaceOf(p.Type())}
				if isRefType(p.Type()) && !isFuncType(p.Type()) {
					v.k, v.n = 'r', "P#"+p.Name()
				}
				args = append(args, v)
			}
			couts := e.exec(ctor, args, nil, "new", st)
			e.events = save
			if len(couts) == 0 {
				die("constructor %s never returns", fnName(ctor))
			}
			e.prefix = "L#"
			e.guards = guards
			for _, co := range couts {
				if co.st.panic {
					continue
				}
				recv := co.res[0]
				if recv.k != 'r' {
					die("cannot tell what %s returns", fnName(ctor))
				}
				recv.dyn, recv.it = nil, nil
				args := []lv{recv}
				for _, p := range op.Params[1:] {
					v := lv{it: ifaceOf(p.Type())}
					if isRefType(p.Type()) && !isFuncType(p.Type()) {
						v.k, v.n = 'r', "P#"+p.Name()
					}
					args = append(args, v)
				}
				s := co.st
				s.hist = nil
				for k, vs := range s.cells {
					if isShared(k) && len(vs) == 1 && vs[0].k == 'r' {
						d := e.short(k)
						e.disp[vs[0].n] = d[strings.LastIndexByte(d, '.')+1:]
					}
				}
				for _, o := range e.exec(op, args, nil, "op", s) {
					e.nExit++
					e.exitChecks(op, o)
				}
			}
		}
		guards = e.inferGuards()
	}
	e.globalChecks()
	return e
}

func isFuncType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

func (e *lockEngine) exitChecks(op *ssa.Function, o lout) {
	where := e.w.pos(op.Pos())
	for _, l := range o.st.locks {
		at := l.id[strings.Index(l.id, "@")+1:]
		if o.st.panic {
			e.report("C06", "panic leaves "+e.short(l.name)+" held in "+e.op, at,
				"if a user component called under this lock panics, %s taken at %s is never released", e.short(l.name), at)
		} else {
			e.report("C01", "exit holding "+e.short(l.name)+" in "+e.op, at,
				"%s can return while %s, taken at %s, is still held", e.op, e.short(l.name), at)
		}
	}
	if !o.st.panic {
		for _, p := range o.st.pend {
			if p.joined {
				for _, a := range p.accs {
					a.inh = nil
					e.emit(o.st, a)
				}
				if p.lateCall != "" {
					e.report("C05", "goroutine works after completion in "+e.op, p.site, "the goroutine started at %s calls %s after it reported completion: %s can return before that call ends", p.site, p.lateCall, e.op)
				}
				continue
			}
			if strings.HasPrefix(p.done, "chan:") && e.received[e.op] {
				e.unsure("C05", "channel join in "+e.op, p.site, "goroutines that report completion over a channel: the number of receives is not counted")
				continue
			}
			e.report("C05", "goroutine not joined in "+e.op, p.site, "%s can return while the goroutine started at %s may still run", e.op, p.site)
			for _, a := range p.accs {
				a.inh = nil
				e.emit(o.st, a)
			}
		}
		_ = where
	}
}

// inferGuards gives, per shared object written by an operation, the locks
// held at every write.
func (e *lockEngine) inferGuards() map[string][]string {
	sets := map[string]map[string]bool{}
	for _, ev := range e.events {
		if !ev.acc.w {
			continue
		}
		cur := map[string]bool{}
		for _, l := range ev.acc.own {
			if l.mode == 'W' {
				cur[l.name] = true
			}
		}
		if s, ok := sets[ev.acc.name]; ok {
			for l := range s {
				if !cur[l] {
					delete(s, l)
				}
			}
		} else {
			sets[ev.acc.name] = cur
		}
	}
	r := map[string][]string{}
	for n, s := range sets {
		for l := range s {
			r[n] = append(r[n], l)
		}
		sort.Strings(r[n])
	}
	return r
}

func (e *lockEngine) globalChecks() {
	e.trace = nil
	// lock order
	adj := map[string][]string{}
	for k := range e.edges {
		p := strings.SplitN(k, ">", 2)
		adj[p[0]] = append(adj[p[0]], p[1])
	}
	var keys []string
	for k := range adj {
		sort.Strings(adj[k])
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		// is k reachable from itself?
		seen := map[string]string{}
		queue := []string{k}
		for len(queue) > 0 {
			x := queue[0]
			queue = queue[1:]
			for _, y := range adj[x] {
				if y == k {
					e.op = "lock order"
					path := []string{}
					for z := x; ; z = seen[z] {
						path = append([]string{e.short(z)}, path...)
						if z == k {
							break
						}
					}
					e.report("C02", "lock order cycle through "+e.short(k), "-", "locks are taken in both orders: %s -> %s; %s; %s",
						strings.Join(path, " -> "), e.short(k), e.edges[k+">"+adj[k][0]], e.edges[x+">"+k])
				} else if _, ok := seen[y]; !ok && y != k {
					seen[y] = x
					queue = append(queue, y)
				}
			}
		}
	}
	// races between operations
	evs := make([]levent, 0, len(e.events))
	for _, ev := range e.events {
		evs = append(evs, ev)
	}
	sort.Slice(evs, func(i, j int) bool {
		return evs[i].acc.name+evs[i].site+evs[i].op < evs[j].acc.name+evs[j].site+evs[j].op
	})
	seen := map[string]bool{}
	for i, a := range evs {
		if !a.acc.w {
			continue
		}
		for j, b := range evs {
			if b.acc.w && j < i {
				continue
			}
			if !conflict(a.acc, b.acc, false) {
				continue
			}
			k := e.short(a.acc.name) + ": " + a.op + "/" + b.op
			if seen[k] {
				continue
			}
			seen[k] = true
			e.op = a.op
			e.report("C03", "race on "+k, a.site, "write of %s in %s holding {%s} can run concurrently with the %s in %s at %s holding {%s}",
				e.short(a.acc.name), a.op, e.heldStr(a.acc.own), rw(b.acc.w), b.op, b.site, e.heldStr(b.acc.own))
			v := e.viol["C03|race on "+k]
			v.ops = []string{a.op, b.op}
			e.viol["C03|race on "+k] = v
		}
	}
}

func (e *lockEngine) heldStr(hs []lheld) string {
	var s []string
	for _, h := range hs {
		s = append(s, e.short(h.name)+":"+lockModeStr(h.mode))
	}
	return strings.Join(s, ", ")
}

// checkLocks fills the report of one of C01..C06 from engine L.
func checkLocks(w *World, r *Report) {
	e := w.runLocks()
	rules := map[string]string{
		"C01": "lock set empty at every exit of every public repository operation, and no release of a lock not held on that path (context-sensitive lock-set dataflow over SSA)",
		"C02": "acyclic lock acquisition order over all public operations, no re-acquisition of a held lock, no join of a goroutine under a lock it takes",
		"C03": "for every pair of accesses (one a write) to one shared abstract object by public operations a common lock, exclusive on one side; goroutines of one operation touch per-iteration objects or hold a common lock",
		"C04": "two-phase rule: a write of guarded data never follows, in the same operation, a read of guarded data or a write in a critical section already left, unless the read is repeated in the current one; combined reads likewise",
		"C05": "every goroutine start reports completion exactly once on each path to one wait group which the operation waits for after the start on every path to an exit",
		"C06": "panic edges out of every call of a user component: after the deferred calls of all frames the lock set is empty",
	}
	r.Rule = rules[r.Prop]
	for _, v := range e.viol {
		if v.prop == r.Prop {
			st := "violated"
			if v.soft {
				st = "unknown"
			} else if why := e.undecidedIn(v); why != "" {
				st = "unknown"
				v.detail = "follows from what is not decided (" + why + "): " + v.detail
			}
			r.add(v.key, v.where, st, v.detail)
		}
	}
	for op, why := range e.unsureOps {
		r.unknown("operation "+op, "-", "%s", why)
	}
	badOps := map[string]bool{}
	ops, _ := w.lockEntries()
	for _, op := range ops {
		if !badOps[op.Name()] {
			r.ok("operation "+op.Name(), w.pos(op.Pos()))
		}
	}
	kinds := map[string][]string{"C01": {"lock", "unlock"}, "C02": {"lock", "join"}, "C03": {"lock", "go"}, "C04": {"lock", "unlock"}, "C05": {"go", "join"}, "C06": {"callback"}}
	for _, k := range kinds[r.Prop] {
		for s := range e.sites[k] {
			r.ok(k+" site "+s, s)
		}
	}
	var objs []string
	for o, g := range e.guards {
		if r.Prop == "C03" || r.Prop == "C04" {
			var gs []string
			for _, x := range g {
				gs = append(gs, e.short(x))
			}
			objs = append(objs, e.short(o)+" guarded by {"+strings.Join(gs, ",")+"}")
		}
	}
	sort.Strings(objs)
	if len(objs) > 0 {
		r.Cov["guarded_objects"] = objs
	}
	if r.Prop == "C02" {
		var es []string
		for k, v := range e.edges {
			p := strings.SplitN(k, ">", 2)
			es = append(es, e.short(p[0])+" -> "+e.short(p[1])+": "+v)
		}
		sort.Strings(es)
		r.Cov["lock_order"] = es
	}
	r.floor("operations", e.nOps, 11)
	r.floor("exit_states", e.nExit, 22)
	r.floor("lock_acquisition_sites", len(e.sites["lock"]), 8)
	r.Cov["functions_inlined"] = e.nInline
	r.Cov["steps"] = e.steps
	switch r.Prop {
	case "C03":
		r.floor("shared_accesses", len(e.events), 40)
		w := 0
		for _, ev := range e.events {
			if ev.acc.w {
				w++
			}
		}
		r.floor("shared_writes", w, 12)
	case "C04":
		r.floor("guarded_objects_n", len(e.guards), 4)
	case "C05":
		r.floor("goroutine_start_sites", len(e.sites["go"]), 0)
		if len(e.sites["go"]) > len(e.sites["join"]) && len(e.sites["join"]) == 0 {
			r.bad("goroutines without any join", "-", "goroutines are started but nothing waits")
		}
	case "C06":
		r.floor("callback_sites", len(e.sites["callback"]), 4)
		r.floor("callback_sites_under_a_lock", len(e.callbacksUnderLock), 3)
	}
	r.Assume = append(r.Assume,
		"the standard library's sync primitives behave as documented; other standard library calls take no repository lock",
		"repositories are obtained from the public constructor and not copied",
		"user components do not call back into the same repository")
	_ = fmt.Sprint
}
