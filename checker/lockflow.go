package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Engine L: context-sensitive dataflow over the SSA of the public repository
// operations. The abstract state holds the locks held, the pending defers,
// the goroutines not yet joined with what they touch, and the reads and
// writes of guarded data made so far.

// lv is the abstract value of a register: what it refers to, by access path.
type lv struct {
	k   byte // 0 unknown, r reference or address, f function, c constant, i induction variable, t tuple
	n   string
	tag string // value of this very iteration of the tagged loop
	old bool   // ... of an earlier iteration
	off int
	fn  *ssa.Function
	b   []lv
	dyn types.Type // concrete type held, if known
	it  types.Type // interface type it was last seen as
}

func (v lv) key() string {
	s := string(v.k) + v.n
	if v.tag != "" {
		s += fmt.Sprintf("@%s%+d%v", v.tag, v.off, v.old)
	}
	if v.fn != nil {
		s += "&" + v.fn.String()
	}
	for _, x := range v.b {
		s += "(" + x.key() + ")"
	}
	return s
}

type lheld struct {
	name, id string
	mode     byte   // R or W
	after    string // guarded accesses whose protection had ended when it was taken
	inh      bool   // held by the spawner of the goroutine being analysed
}

type lacc struct {
	name, tag string
	old       bool
	off       int
	w         bool
	own, inh  []lheld
	site      string
}

func (a lacc) key() string {
	return fmt.Sprint(a.name, a.tag, a.old, a.off, a.w, a.own, a.inh)
}

type lacq struct {
	name, site string
	mode       byte
}

type lpend struct {
	site string
	done string // wait group it reports to
	accs map[string]lacc
	acqs map[string]lacq
	// what it does after it reported completion
	late     map[string]lacc
	lateCall string
	joined   bool // its completion was waited for; only late work is left
}

func (p *lpend) clone() *lpend {
	q := &lpend{site: p.site, done: p.done, accs: map[string]lacc{}, acqs: map[string]lacq{}, lateCall: p.lateCall, joined: p.joined}
	for k, v := range p.late {
		if q.late == nil {
			q.late = map[string]lacc{}
		}
		q.late[k] = v
	}
	for k, v := range p.accs {
		q.accs[k] = v
	}
	for k, v := range p.acqs {
		q.acqs[k] = v
	}
	return q
}

func (p *lpend) key() string { return fmt.Sprint(p.site, "/", p.done, p.joined) }

// join adds q's accesses to p and tells whether p grew.
func (p *lpend) join(q *lpend) bool {
	ch := false
	for k, v := range q.accs {
		if _, ok := p.accs[k]; !ok {
			p.accs[k] = v
			ch = true
		}
	}
	for k, v := range q.late {
		if _, ok := p.late[k]; !ok {
			if p.late == nil {
				p.late = map[string]lacc{}
			}
			p.late[k] = v
			ch = true
		}
	}
	if p.lateCall == "" && q.lateCall != "" {
		p.lateCall = q.lateCall
		ch = true
	}
	for k, v := range q.acqs {
		if _, ok := p.acqs[k]; !ok {
			p.acqs[k] = v
			ch = true
		}
	}
	return ch
}

// join merges the parts of o that are not part of the state's key: the
// possible contents of cells and the accesses of pending goroutines.
func (s *lstate) join(o *lstate) bool {
	ch := false
	for k, vs := range o.cells {
		for _, v := range vs {
			if n := addVal(s.cells[k], v); len(n) != len(s.cells[k]) {
				s.cells[k] = n
				ch = true
			}
		}
	}
	for i, p := range o.pend {
		if s.pend[i].join(p) {
			ch = true
		}
	}
	if s.cur != nil && s.cur.join(o.cur) {
		ch = true
	}
	return ch
}

type lhist struct {
	obj    string
	w      bool
	ids    string // acquisitions of guards still protecting it
	closed bool
	needs  string // objects whose earlier, closed reads must be repeated
	site   string
}

type lstate struct {
	locks []lheld
	cells map[string][]lv
	ren   map[string]string
	pend  []*lpend
	hist  []lhist
	cur   *lpend // goroutine being analysed, nil in the caller's
	dones []string
	// panic: this outcome ends by a panic; unwinding: deferred calls run
	// because of a panic that nothing has recovered yet
	panic, unwinding bool
}

func (s *lstate) clone() *lstate {
	n := &lstate{cells: make(map[string][]lv, len(s.cells)), ren: make(map[string]string, len(s.ren)), panic: s.panic, unwinding: s.unwinding}
	n.locks = append([]lheld(nil), s.locks...)
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.ren {
		n.ren[k] = v
	}
	for _, p := range s.pend {
		n.pend = append(n.pend, p.clone())
	}
	n.hist = append([]lhist(nil), s.hist...)
	if s.cur != nil {
		n.cur = s.cur.clone()
	}
	n.dones = append([]string(nil), s.dones...)
	return n
}

func (s *lstate) key() string {
	var b strings.Builder
	for _, l := range s.locks {
		fmt.Fprintf(&b, "%s%c%v%s,", l.id, l.mode, l.inh, l.after)
	}
	ks := make([]string, 0, len(s.cells))
	for k, v := range s.cells {
		if len(v) == 1 && v[0].k == 'c' {
			ks = append(ks, k+"="+v[0].n)
		}
	}
	for k, v := range s.ren {
		ks = append(ks, k+">"+v)
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ";"))
	for _, p := range s.pend {
		b.WriteString("#" + p.key())
	}
	if s.cur != nil {
		b.WriteString("!" + s.cur.key())
	}
	for _, h := range s.hist {
		fmt.Fprintf(&b, "~%s%v%s%v%s", h.obj, h.w, h.ids, h.closed, h.needs)
	}
	fmt.Fprint(&b, s.dones, s.panic, s.unwinding)
	return b.String()
}

type ldefer struct {
	in   *ssa.Defer
	call lcall
}

type lcall struct {
	invoke bool
	method *types.Func
	fn     lv
	args   []lv
	ptypes []types.Type
	rtype  types.Type
	blt    *ssa.Builtin
}

type lcfg struct {
	env    map[ssa.Value]lv
	defers []ldefer
	st     *lstate
}

func (c *lcfg) clone() *lcfg {
	n := &lcfg{env: make(map[ssa.Value]lv, len(c.env)), st: c.st.clone()}
	for k, v := range c.env {
		n.env[k] = v
	}
	n.defers = append([]ldefer(nil), c.defers...)
	return n
}

type lout struct {
	st  *lstate
	res []lv
}

// lviol is one finding. A soft one is a construct the engine does not decide:
// it is not a violation, and neither is what follows from it in the same
// operation (ops).
type lviol struct {
	prop, key, where, detail string
	soft                     bool
	ops                      []string
}

type lockEngine struct {
	w      *World
	prefix string
	op     string
	stack  []*ssa.Function
	trace  []string
	disp   map[string]string
	steps  int
	inGo   int

	over      bool // limits exceeded in this operation
	began     time.Time
	opStart   int
	viol      map[string]lviol
	unsureOps map[string]string // operation -> construct the engine does not decide
	received  map[string]bool   // operations that receive from a channel
	edges     map[string]string // lock order: "a>b" -> witness
	events    map[string]levent
	guards    map[string][]string // object -> locks that guard it (second pass)

	// counters for the evidence
	nOps, nAcq, nRel, nSpawn, nWait, nCallback, nAccess, nInline, nExit int
	sites                                                               map[string]map[string]bool
	callbacksUnderLock                                                  map[string]bool
}

type levent struct {
	op, site string
	acc      lacc
}

func newLockEngine(w *World) *lockEngine {
	return &lockEngine{w: w, began: time.Now(), disp: map[string]string{}, viol: map[string]lviol{}, unsureOps: map[string]string{}, received: map[string]bool{}, edges: map[string]string{}, events: map[string]levent{},
		sites: map[string]map[string]bool{}, callbacksUnderLock: map[string]bool{}}
}

func (e *lockEngine) site(kind, s string) {
	if e.sites[kind] == nil {
		e.sites[kind] = map[string]bool{}
	}
	e.sites[kind][s] = true
}

func (e *lockEngine) report(prop, key, where, f string, a ...any) {
	d := fmt.Sprintf(f, a...)
	if len(e.trace) > 0 {
		d += "\n    call path: " + e.op + " -> " + strings.Join(e.trace, " -> ")
	} else {
		d += "\n    entry: " + e.op
	}
	k := prop + "|" + key
	if _, ok := e.viol[k]; !ok {
		e.viol[k] = lviol{prop: prop, key: key, where: where, detail: d, ops: []string{e.op}}
	}
}

// unsure records a construct the engine does not decide.
func (e *lockEngine) unsure(prop, key, where, d string) {
	e.unsureOps[e.op] = key
	k := prop + "|" + key
	if _, ok := e.viol[k]; !ok {
		e.viol[k] = lviol{prop: prop, key: key, where: where, detail: d, soft: true}
	}
}

// undecidedIn tells which undecided construct a finding may follow from.
func (e *lockEngine) undecidedIn(v lviol) string {
	for _, o := range v.ops {
		if s := e.unsureOps[o]; s != "" {
			return s
		}
	}
	return ""
}

// names ---------------------------------------------------------------------

func lockModeStr(m byte) string {
	if m == 'R' {
		return "read"
	}
	return "write"
}

// short gives a readable form of an abstract object name.
func (e *lockEngine) short(n string) string {
	if d, ok := e.disp[n]; ok {
		return d
	}
	s := n
	for {
		i := strings.IndexByte(s, '#')
		if i < 0 {
			break
		}
		j := strings.IndexByte(s[i:], '!')
		if j < 0 {
			break
		}
		st := i - 1
		if st < 0 {
			st = 0
		}
		s = s[:st] + s[i+j+1:]
	}
	return s
}

func isShared(n string) bool { return strings.HasPrefix(n, "R#") || strings.HasPrefix(n, "G#") }
func isSummary(n string) bool {
	return strings.Contains(n, "[*]") || strings.Contains(n, "{}") || strings.Contains(n, "^")
}

func limitName(n string) string {
	if strings.Count(n, "^")+strings.Count(n, "{}")+strings.Count(n, "[*]") > 10 {
		i := strings.LastIndexAny(n, "^}]")
		return n[:i]
	}
	return n
}

func (s *lstate) canon(n string) string {
	if len(s.ren) == 0 {
		return n
	}
	for i := 0; i < 8; i++ {
		hit := false
		for k, v := range s.ren {
			if n == k || strings.HasPrefix(n, k) && strings.ContainsRune(".^[{", rune(n[len(k)])) {
				n = v + n[len(k):]
				hit = true
				break
			}
		}
		if !hit {
			break
		}
	}
	return n
}

func valuePrefix(a, b string) bool { // b is a part of the value stored at a
	if a == b {
		return true
	}
	if !strings.HasPrefix(b, a) {
		return false
	}
	r := b[len(a):]
	return (r[0] == '.' || r[0] == '[') && !strings.ContainsAny(r, "^{")
}

// accesses ------------------------------------------------------------------

// elemBelow: a is an element with a constant index, b one with another
// constant index or of a loop that starts above a's.
func (a lacc) elemBelow(b lacc) bool {
	if !strings.HasPrefix(a.tag, "=") {
		return false
	}
	if strings.HasPrefix(b.tag, "=") {
		return a.tag != b.tag
	}
	i := strings.LastIndex(b.tag, ">=")
	if i < 0 {
		return false
	}
	var k, lo int
	if n, _ := fmt.Sscan(a.tag[1:], &k); n != 1 {
		return false
	}
	if n, _ := fmt.Sscan(b.tag[i+2:], &lo); n != 1 {
		return false
	}
	return k < lo+b.off
}

func conflict(a, b lacc, useInh bool) bool {
	if !a.w && !b.w {
		return false
	}
	if !valuePrefix(a.name, b.name) && !valuePrefix(b.name, a.name) {
		return false
	}
	if a.tag != "" && a.tag == b.tag && a.off == b.off && (a.old || b.old) {
		return false // elements of different iterations
	}
	if strings.HasSuffix(a.name, "[*]") && a.name == b.name && (a.elemBelow(b) || b.elemBelow(a)) {
		return false
	}
	la, lb := a.own, b.own
	if useInh {
		la = append(append([]lheld(nil), a.own...), a.inh...)
		lb = append(append([]lheld(nil), b.own...), b.inh...)
	}
	for _, x := range la {
		for _, y := range lb {
			if x.name == y.name && (x.mode == 'W' || y.mode == 'W') {
				return false
			}
		}
	}
	return true
}

func (e *lockEngine) emit(st *lstate, a lacc) {
	if !isShared(a.name) {
		return
	}
	a.tag, a.old, a.off = "", false, 0
	a.own = append(append([]lheld(nil), a.own...), a.inh...)
	for i := range a.own {
		a.own[i].inh = false
		a.own[i].id, a.own[i].after = "", ""
	}
	sort.Slice(a.own, func(i, j int) bool { return a.own[i].name < a.own[j].name })
	a.inh = nil
	k := e.op + "|" + a.key() + a.site
	if _, ok := e.events[k]; !ok {
		d := ""
		if len(e.trace) > 0 {
			d = " via " + strings.Join(e.trace, " -> ")
		}
		e.events[k] = levent{e.op, a.site + d, a}
	}
}

func (e *lockEngine) access(st *lstate, v lv, w bool, site string) {
	if v.k != 'r' || v.n == "" {
		return
	}
	name := limitName(st.canon(v.n))
	e.nAccess++
	a := lacc{name: name, tag: v.tag, old: v.old, off: v.off, w: w, site: site}
	for _, l := range st.locks {
		h := lheld{name: l.name, mode: l.mode}
		if l.inh {
			a.inh = append(a.inh, h)
		} else {
			a.own = append(a.own, h)
		}
	}
	if strings.HasPrefix(name, "T#") {
		return
	}
	if st.cur != nil {
		if _, ok := st.cur.accs[a.key()]; !ok {
			st.cur.accs[a.key()] = a
		}
		if st.reported() {
			if st.cur.late == nil {
				st.cur.late = map[string]lacc{}
			}
			if _, ok := st.cur.late[a.key()]; !ok {
				st.cur.late[a.key()] = a
			}
		}
	} else {
		for _, p := range st.pend {
			for _, b := range p.accs {
				if conflict(a, b, false) {
					e.report("C03", "concurrent with goroutine: "+e.short(a.name)+" in "+e.op, site,
						"%s of %s races with the %s in the goroutine started at %s", rw(a.w), e.short(a.name), rw(b.w), p.site)
				}
			}
		}
		e.emit(st, a)
	}
	if isShared(name) {
		e.history(st, name, w, site)
	}
}

func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}

// history implements the two-phase rule (C04).
func (e *lockEngine) history(st *lstate, obj string, w bool, site string) {
	if e.guards == nil {
		return
	}
	gs := e.guards[obj]
	if len(gs) == 0 {
		return
	}
	var ids []string
	var prot []lheld
	for _, l := range st.locks {
		for _, g := range gs {
			if l.name == g {
				ids = append(ids, l.id)
				prot = append(prot, l)
			}
		}
	}
	sort.Strings(ids)
	// before tells whether h's protection ended before every lock that now
	// protects obj was taken: then another operation may run in between.
	before := func(h lhist) bool {
		for _, l := range prot {
			if !strings.Contains(l.after, "\x00"+rw(h.w)+h.obj+"\x00") {
				return false
			}
		}
		return true
	}
	open := func(o string) bool {
		for _, h := range st.hist {
			if h.obj == o && !h.closed {
				return true
			}
		}
		return false
	}
	needs := map[string]bool{}
	for _, h := range st.hist {
		if !h.closed || !before(h) {
			continue
		}
		if h.w {
			e.report("C04", "two-step write in "+e.op+": "+e.short(h.obj)+" then "+e.short(obj), site,
				"%s of %s happens after the critical section that wrote %s (%s) was left", rw(w), e.short(obj), e.short(h.obj), h.site)
			continue
		}
		if h.obj == obj || open(h.obj) {
			continue
		}
		if w {
			e.report("C04", "stale decision in "+e.op+": "+e.short(h.obj)+" then "+e.short(obj), site,
				"write of %s relies on %s read at %s in a critical section already left, without reading it again", e.short(obj), e.short(h.obj), h.site)
		} else {
			needs[h.obj] = true
		}
	}
	if w {
		// a stale read of the very object written must have been repeated
		for _, h := range st.hist {
			if h.closed && !h.w && h.obj == obj && !open(obj) && before(h) {
				e.report("C04", "stale decision in "+e.op+": "+e.short(obj), site,
					"write of %s relies on its state read at %s in a critical section already left, without reading it again", e.short(obj), h.site)
			}
		}
	}
	// a repeated read satisfies what earlier reads still needed
	for i := range st.hist {
		if st.hist[i].needs != "" {
			var keep []string
			for _, n := range strings.Split(st.hist[i].needs, "\x00") {
				if n != obj {
					keep = append(keep, n)
				}
			}
			st.hist[i].needs = strings.Join(keep, "\x00")
		}
	}
	var ns []string
	for n := range needs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	h := lhist{obj: obj, w: w, ids: strings.Join(ids, ","), closed: len(ids) == 0, needs: strings.Join(ns, "\x00"), site: site}
	if len(ids) == 0 {
		h.closed = true
	}
	for _, o := range st.hist {
		if o.obj == h.obj && o.w == h.w && o.ids == h.ids && o.closed == h.closed && o.needs == h.needs {
			return
		}
	}
	st.hist = append(st.hist, h)
	sort.Slice(st.hist, func(i, j int) bool {
		a, b := st.hist[i], st.hist[j]
		return a.obj+a.ids+rw(a.w)+a.needs < b.obj+b.ids+rw(b.w)+b.needs
	})
}

func (e *lockEngine) closeHist(st *lstate, id string) {
	for i := range st.hist {
		h := &st.hist[i]
		if h.closed {
			continue
		}
		var keep []string
		for _, x := range strings.Split(h.ids, ",") {
			if x != id && x != "" {
				keep = append(keep, x)
			}
		}
		h.ids = strings.Join(keep, ",")
		if len(keep) == 0 {
			h.closed = true
			if h.needs != "" {
				for _, n := range strings.Split(h.needs, "\x00") {
					e.report("C04", "split read in "+e.op+": "+e.short(n)+" then "+e.short(h.obj), h.site,
						"%s is read in a different critical section than %s, which the operation combines", e.short(h.obj), e.short(n))
				}
				h.needs = ""
			}
		}
	}
}

// locks ---------------------------------------------------------------------

func (e *lockEngine) lock(st *lstate, v lv, mode byte, site string) {
	name := st.canon(v.n)
	e.nAcq++
	e.site("lock", site)
	if v.k != 'r' {
		e.unsure("C01", "unresolved lock in "+e.op, site, "cannot tell which lock is taken")
		return
	}
	for _, h := range st.locks {
		if h.inh {
			continue
		}
		if h.name == name {
			if !isSummary(name) {
				e.report("C02", "re-acquire "+e.short(name)+" in "+e.op, site, "%s is locked (%s) while already held (%s) since %s", e.short(name), lockModeStr(mode), lockModeStr(h.mode), h.id)
			}
			continue
		}
		k := h.name + ">" + name
		if _, ok := e.edges[k]; !ok {
			e.edges[k] = fmt.Sprintf("%s takes %s at %s while holding %s", e.op, e.short(name), site, e.short(h.name))
		}
	}
	if st.cur != nil {
		st.cur.acqs[name+string(mode)] = lacq{name, site, mode}
	}
	var after []string
	for _, h := range st.hist {
		if h.closed {
			after = append(after, "\x00"+rw(h.w)+h.obj+"\x00")
		}
	}
	sort.Strings(after)
	st.locks = append(st.locks, lheld{name: name, id: name + "@" + site, mode: mode, after: strings.Join(after, "")})
}

func (e *lockEngine) unlock(st *lstate, v lv, mode byte, site string) {
	name := st.canon(v.n)
	e.nRel++
	e.site("unlock", site)
	for i := len(st.locks) - 1; i >= 0; i-- {
		h := st.locks[i]
		if h.name != name {
			continue
		}
		if h.mode != mode {
			e.report("C01", "wrong release "+e.short(name)+" in "+e.op, site, "%s is released in %s mode but held in %s mode", e.short(name), lockModeStr(mode), lockModeStr(h.mode))
		}
		st.locks = append(append([]lheld(nil), st.locks[:i]...), st.locks[i+1:]...)
		for _, p := range st.pend {
			accs := map[string]lacc{}
			for _, a := range p.accs {
				var inh []lheld
				for _, x := range a.inh {
					if x.name != name {
						inh = append(inh, x)
					}
				}
				a.inh = inh
				accs[a.key()] = a
			}
			p.accs = accs
		}
		still := false
		for _, l := range st.locks {
			if l.id == h.id {
				still = true
			}
		}
		if !still {
			e.closeHist(st, h.id)
		}
		return
	}
	e.report("C01", "release of unheld "+e.short(name)+" in "+e.op, site, "%s is released here but not held on this path", e.short(name))
}

func (e *lockEngine) join(st *lstate, wg string, site string) {
	e.nWait++
	e.site("join", site)
	var keep []*lpend
	for _, p := range st.pend {
		if p.done != wg {
			keep = append(keep, p)
			continue
		}
		for _, a := range p.accs {
			e.emit(st, a)
		}
		for _, q := range p.acqs {
			for _, h := range st.locks {
				if h.name == q.name {
					e.report("C02", "join under "+e.short(h.name)+" in "+e.op, site,
						"waits for the goroutine started at %s, which takes %s at %s, while holding that lock", p.site, e.short(q.name), q.site)
				} else {
					k := h.name + ">" + q.name
					if _, ok := e.edges[k]; !ok {
						e.edges[k] = fmt.Sprintf("%s waits at %s holding %s for a goroutine that takes %s at %s", e.op, site, e.short(h.name), e.short(q.name), q.site)
					}
				}
			}
		}
	}
	// what a goroutine does after it reported completion is not waited for
	for _, p := range st.pend {
		if p.done == wg && (len(p.late) > 0 || p.lateCall != "") {
			keep = append(keep, &lpend{site: p.site, accs: p.late, acqs: map[string]lacq{}, lateCall: p.lateCall, joined: true})
		}
	}
	sort.Slice(keep, func(i, j int) bool { return keep[i].key() < keep[j].key() })
	st.pend = keep
}

// execution -----------------------------------------------------------------

func (e *lockEngine) exec(fn *ssa.Function, args, binds []lv, ctx string, st *lstate) []lout {
	for _, f := range e.stack {
		if f == fn {
			e.unsure("C01", "recursion "+fnName(fn), fnName(fn), "recursive call: the lock state cannot be decided")
			return []lout{{st, nil}}
		}
	}
	if len(e.stack) > 40 || e.over {
		e.giveUp()
		return []lout{{st, nil}}
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	e.nInline++
	c := &lcfg{env: map[ssa.Value]lv{}, st: st}
	for i, p := range fn.Params {
		if i < len(args) {
			c.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			c.env[p] = binds[i]
		}
	}
	r := &lrun{e: e, fn: fn, ctx: ctx, seen: map[string]*lstate{}}
	r.enter(fn.Blocks[0], nil, c)
	for len(r.work) > 0 {
		it := r.work[len(r.work)-1]
		r.work = r.work[:len(r.work)-1]
		r.block(it.b, 0, it.c)
		if e.steps++; e.steps-e.opStart > maxLockSteps || e.steps&63 == 0 && time.Since(e.began) > maxLockTime {
			e.giveUp()
		}
		if e.over {
			r.work = nil
			if len(r.outs) == 0 {
				return []lout{{st, nil}}
			}
		}
	}
	return mergeOuts(r.outs)
}

// A tree on which the lock analysis takes this long is not decided (the
// unchanged one takes 6000 steps and a second).
const (
	maxLockSteps = 300000
	maxLockTime  = 90 * time.Second
)

// giveUp ends the analysis without a verdict for the operation.
func (e *lockEngine) giveUp() {
	e.over = true
	e.unsure("C01", "unsupported: limits exceeded in "+e.op, "-", "the analysis of this operation exceeds its limits")
}

type litem struct {
	b *ssa.BasicBlock
	c *lcfg
}

type lrun struct {
	e    *lockEngine
	fn   *ssa.Function
	ctx  string
	seen map[string]*lstate
	work []litem
	outs []lout
}

func (r *lrun) name(in ssa.Instruction, kind string) string {
	p := r.e.prefix
	if r.e.inGo > 0 && p == "L#" {
		p = "T#" // allocated by a goroutine: each run has its own
	}
	return fmt.Sprintf("%s%s/%d!%s", p, r.ctx, r.e.w.id(in), kind)
}

func isLocal(n string) bool { return strings.HasPrefix(n, "L#") || strings.HasPrefix(n, "T#") }

// age marks everything tagged with this loop as belonging to an earlier
// iteration.
func age(c *lcfg, tag string) {
	old := func(v lv) (lv, bool) {
		if v.tag == tag && !v.old {
			v.old = true
			if v.k == 'i' {
				v.k = 0
				v.tag = ""
				v.old = false
			}
			return v, true
		}
		return v, false
	}
	for k, v := range c.env {
		if nv, ok := old(v); ok {
			c.env[k] = nv
		}
	}
	for k, vs := range c.st.cells {
		for i := range vs {
			if nv, ok := old(vs[i]); ok {
				n := append([]lv(nil), vs...)
				n[i] = nv
				vs = n
				c.st.cells[k] = n
			}
		}
	}
	for _, p := range c.st.pend {
		accs := map[string]lacc{}
		for _, a := range p.accs {
			if a.tag == tag {
				a.old = true
			}
			accs[a.key()] = a
		}
		p.accs = accs
		late := map[string]lacc{}
		for _, a := range p.late {
			if a.tag == tag {
				a.old = true
			}
			late[a.key()] = a
		}
		p.late = late
	}
}

// startsAt gives the lower bound of a loop variable, if it is a constant.
func startsAt(ph *ssa.Phi) string {
	lo := ""
	for i, e := range ph.Edges {
		if ph.Block().Dominates(ph.Block().Preds[i]) {
			b := e.(*ssa.BinOp)
			if (b.Op == token.ADD) != (b.Y.(*ssa.Const).Int64() > 0) {
				return ""
			}
			continue
		}
		k, ok := e.(*ssa.Const)
		if !ok || k.Value == nil || lo != "" {
			return ""
		}
		lo = fmt.Sprint(">=", k.Int64())
	}
	return lo
}

func induction(ph *ssa.Phi) bool {
	n := 0
	for i, e := range ph.Edges {
		if ph.Block().Dominates(ph.Block().Preds[i]) {
			b, ok := e.(*ssa.BinOp)
			if !ok || (b.Op != token.ADD && b.Op != token.SUB) || b.X != ph {
				return false
			}
			k, ok := b.Y.(*ssa.Const)
			if !ok || k.Value == nil || k.Int64() == 0 {
				return false
			}
			n++
		}
	}
	return n == 1
}

func (r *lrun) enter(b, from *ssa.BasicBlock, c *lcfg) {
	if from != nil {
		pi := -1
		for i, p := range b.Preds {
			if p == from {
				pi = i
			}
		}
		vals := map[*ssa.Phi]lv{}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := r.val(c, ph.Edges[pi])
			if bs, ok := ph.Type().Underlying().(*types.Basic); ok && bs.Info()&types.IsInteger != 0 {
				v = lv{}
				if induction(ph) {
					tag := r.ctx + "/" + r.fn.Name() + ":" + ph.Name() + startsAt(ph)
					if b.Dominates(from) {
						age(c, tag)
					}
					v = lv{k: 'i', tag: tag}
				}
			}
			vals[ph] = v
		}
		for ph, v := range vals {
			c.env[ph] = v
		}
	}
	live := r.e.w.liveIn(b)
	for v := range c.env {
		if !live[v] {
			delete(c.env, v)
		}
	}
	var ks []string
	for v, x := range c.env {
		if x.k != 0 {
			ks = append(ks, v.Name()+"="+x.key())
		}
	}
	sort.Strings(ks)
	k := fmt.Sprint(b.Index) + "|" + strings.Join(ks, ";") + "|" + c.st.key()
	for _, d := range c.defers {
		k += fmt.Sprintf("D%p", d.in)
	}
	if s := r.seen[k]; s != nil {
		if !s.join(c.st) {
			return
		}
		c.st = s.clone()
	} else {
		r.seen[k] = c.st.clone()
	}
	if len(r.seen) > 200000 {
		r.e.giveUp()
		return
	}
	r.work = append(r.work, litem{b, c})
}

func (r *lrun) val(c *lcfg, v ssa.Value) lv {
	switch v := v.(type) {
	case nil:
		return lv{}
	case *ssa.Const:
		if v.Value == nil {
			return lv{k: 'c', n: "nil"}
		}
		if v.Value.Kind() == constant.Bool {
			return lv{k: 'c', n: v.Value.String()}
		}
		if v.Value.Kind() == constant.Int {
			return lv{k: 'c', n: v.Value.String()}
		}
		return lv{}
	case *ssa.Function:
		return lv{k: 'f', fn: v}
	case *ssa.Global:
		return lv{k: 'r', n: "G#" + "!" + v.String()}
	case *ssa.Builtin:
		return lv{}
	}
	x := c.env[v]
	if x.n != "" && x.k == 'r' {
		x.n = c.st.canon(x.n)
	}
	return x
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface, *types.Signature, *types.Struct, *types.Array:
		return true
	}
	return false
}

// load gives the possible values found at an address.
func (r *lrun) load(c *lcfg, a lv, t types.Type) []lv {
	if a.k != 'r' {
		return []lv{{it: ifaceOf(t)}}
	}
	n := c.st.canon(a.n)
	if st, ok := t.Underlying().(*types.Struct); ok {
		_ = st
		return []lv{{k: 'r', n: n, tag: a.tag, old: a.old, off: a.off}}
	}
	if vs, ok := c.st.cells[n]; ok && len(vs) > 0 {
		var out []lv
		for _, v := range vs {
			if v.k == 'r' && v.tag == "" && a.tag != "" {
				v.tag, v.old, v.off = a.tag, a.old, a.off
			}
			if v.it == nil {
				v.it = ifaceOf(t)
			}
			out = append(out, v)
		}
		return out
	}
	if !isRefType(t) {
		return []lv{{}}
	}
	return []lv{{k: 'r', n: limitName(n + "^"), tag: a.tag, old: a.old, off: a.off, it: ifaceOf(t)}}
}

func ifaceOf(t types.Type) types.Type {
	if t != nil && types.IsInterface(t) {
		return t
	}
	return nil
}

func addVal(vs []lv, v lv) []lv {
	for _, x := range vs {
		if x.key() == v.key() {
			return vs
		}
	}
	n := append(append([]lv(nil), vs...), v)
	sort.Slice(n, func(i, j int) bool { return n[i].key() < n[j].key() })
	return n
}

// store writes v at address a (the access itself is reported by the caller).
func (r *lrun) store(c *lcfg, a, v lv, t types.Type) {
	if a.k != 'r' {
		return
	}
	n := c.st.canon(a.n)
	if v.k == 'r' {
		v.n = c.st.canon(v.n)
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			fa := lv{k: 'r', n: n + "." + f.Name()}
			if v.k != 'r' {
				delete(c.st.cells, fa.n)
				continue
			}
			src := lv{k: 'r', n: v.n + "." + f.Name()}
			for _, x := range r.load(c, src, f.Type()) {
				r.store(c, fa, x, f.Type())
			}
		}
		return
	}
	if isShared(n) && v.k == 'r' && isLocal(v.n) && isRefType(t) {
		// the local object becomes part of the shared state
		target := limitName(n + "^")
		root := v.n
		moved := map[string][]lv{}
		for k, vs := range c.st.cells {
			if k == root || strings.HasPrefix(k, root) && strings.ContainsRune(".^[{", rune(k[len(root)])) {
				moved[k] = vs
			}
		}
		c.st.ren[root] = target
		for k, vs := range moved {
			delete(c.st.cells, k)
			_ = vs
		}
		v.n = target
	}
	if isShared(n) {
		// shared cells keep their symbolic contents, except that the
		// constructor tells which lock each lock pointer denotes
		if r.e.prefix == "R#" && !isSummary(n) && holdsMutex(t, map[types.Type]bool{}) {
			c.st.cells[n] = []lv{v}
		}
		return
	}
	if isSummary(n) {
		c.st.cells[n] = addVal(c.st.cells[n], v)
	} else {
		c.st.cells[n] = []lv{v}
	}
}

func (r *lrun) block(b *ssa.BasicBlock, i int, c *lcfg) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		site := ""
		switch in.(type) {
		case *ssa.Phi:
			continue
		}
		site = r.e.w.ipos(in)
		switch in := in.(type) {
		case *ssa.Alloc:
			n := r.name(in, in.Comment)
			for _, p := range c.st.pend {
				for k, a := range p.accs {
					if a.name == n || strings.HasPrefix(a.name, n) && strings.ContainsRune(".^[{", rune(a.name[len(n)])) {
						delete(p.accs, k)
					}
				}
			}
			for k := range c.st.cells {
				if k == n || strings.HasPrefix(k, n) && strings.ContainsRune(".^[{", rune(k[len(n)])) {
					delete(c.st.cells, k)
				}
			}
			delete(c.st.ren, n)
			if bt, ok := deref(in.Type()).Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
				c.st.cells[n] = []lv{{k: 'c', n: "false"}}
			}
			c.env[in] = lv{k: 'r', n: n}
		case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
			n := r.name(in, "make")
			delete(c.st.ren, n)
			c.env[in.(ssa.Value)] = lv{k: 'r', n: n}
		case *ssa.FieldAddr:
			x := r.val(c, in.X)
			if x.k == 'r' {
				f := deref(in.X.Type()).Underlying().(*types.Struct).Field(in.Field)
				x.n += "." + f.Name()
				x.dyn, x.it = nil, nil
			}
			c.env[in] = x
		case *ssa.IndexAddr:
			x := r.val(c, in.X)
			if x.k == 'r' {
				x.n = limitName(x.n + "[*]")
				ix := r.val(c, in.Index)
				if x.tag == "" && ix.k == 'i' {
					x.tag, x.old, x.off = ix.tag, ix.old, ix.off
				}
				if x.tag == "" && ix.k == 'c' {
					x.tag = "=" + ix.n
				}
				x.dyn, x.it = nil, nil
			}
			c.env[in] = x
		case *ssa.UnOp:
			x := r.val(c, in.X)
			switch in.Op {
			case token.MUL:
				r.e.access(c.st, x, false, site)
				vs := r.load(c, x, in.Type())
				for _, v := range vs[1:] {
					c2 := c.clone()
					c2.env[in] = v
					r.block(b, i+1, c2)
				}
				c.env[in] = vs[0]
			case token.NOT:
				if x.k == 'c' {
					c.env[in] = lv{k: 'c', n: map[string]string{"true": "false", "false": "true"}[x.n]}
				} else {
					c.env[in] = lv{}
				}
			case token.ARROW:
				r.e.received[r.e.op] = true
				r.e.join(c.st, "chan:"+x.n, site)
				c.env[in] = lv{}
			default:
				c.env[in] = lv{}
			}
		case *ssa.BinOp:
			x, y := r.val(c, in.X), r.val(c, in.Y)
			v := lv{}
			switch {
			case x.k == 'i' && y.k == 'c' && (in.Op == token.ADD || in.Op == token.SUB):
				var k int
				fmt.Sscan(y.n, &k)
				if in.Op == token.SUB {
					k = -k
				}
				v = x
				v.off += k
			case x.k == 'c' && y.k == 'c' && in.Op == token.EQL:
				v = lv{k: 'c', n: fmt.Sprint(x.n == y.n)}
			case x.k == 'c' && y.k == 'c' && in.Op == token.NEQ:
				v = lv{k: 'c', n: fmt.Sprint(x.n != y.n)}
			}
			c.env[in] = v
		case *ssa.Store:
			a, v := r.val(c, in.Addr), r.val(c, in.Val)
			r.e.access(c.st, a, true, site)
			r.store(c, a, v, in.Val.Type())
		case *ssa.MapUpdate:
			m, v := r.val(c, in.Map), r.val(c, in.Value)
			if m.k == 'r' {
				m.n = limitName(m.n + "{}")
			}
			r.e.access(c.st, m, true, site)
			r.store(c, m, v, in.Value.Type())
		case *ssa.Lookup:
			x := r.val(c, in.X)
			mt, isMap := in.X.Type().Underlying().(*types.Map)
			if !isMap {
				c.env[in] = lv{}
				break
			}
			if x.k == 'r' {
				x.n = limitName(x.n + "{}")
			}
			r.e.access(c.st, x, false, site)
			vs := r.load(c, x, mt.Elem())
			for k, v := range vs {
				if in.CommaOk {
					v = lv{k: 't', b: []lv{v, {}}}
				}
				if k == len(vs)-1 {
					c.env[in] = v
				} else {
					c2 := c.clone()
					c2.env[in] = v
					r.block(b, i+1, c2)
				}
			}
		case *ssa.Range:
			c.env[in] = r.val(c, in.X)
		case *ssa.Next:
			x := r.val(c, in.Iter)
			if in.IsString {
				c.env[in] = lv{k: 't', b: []lv{{}, {}, {}}}
				break
			}
			mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
			if x.k == 'r' {
				x.n = limitName(x.n + "{}")
			}
			r.e.access(c.st, x, false, site)
			tag := fmt.Sprintf("%s/next%d", r.ctx, r.e.w.id(in))
			age(c, tag)
			x.tag = tag
			vs := r.load(c, x, mt.Elem())
			for k, v := range vs {
				t := lv{k: 't', b: []lv{{}, {}, v}}
				if k == len(vs)-1 {
					c.env[in] = t
				} else {
					c2 := c.clone()
					c2.env[in] = t
					r.block(b, i+1, c2)
				}
			}
		case *ssa.Extract:
			t := r.val(c, in.Tuple)
			if t.k == 't' && in.Index < len(t.b) {
				c.env[in] = t.b[in.Index]
			} else {
				c.env[in] = lv{it: ifaceOf(in.Type())}
			}
		case *ssa.Field:
			x := r.val(c, in.X)
			f := in.X.Type().Underlying().(*types.Struct).Field(in.Field)
			if x.k == 'r' {
				x.n += "." + f.Name()
				x.dyn, x.it = nil, nil
			}
			vs := r.load(c, x, f.Type())
			c.env[in] = vs[0]
			for _, v := range vs[1:] {
				c2 := c.clone()
				c2.env[in] = v
				r.block(b, i+1, c2)
			}
		case *ssa.Index:
			x := r.val(c, in.X)
			if x.k == 'r' {
				x.n += "[*]"
			}
			c.env[in] = r.load(c, x, in.Type())[0]
		case *ssa.Slice:
			c.env[in] = r.val(c, in.X)
		case *ssa.ChangeType:
			c.env[in] = r.val(c, in.X)
		case *ssa.Convert:
			v := r.val(c, in.X)
			if v.k == 'r' {
				v = lv{}
			}
			c.env[in] = v
		case *ssa.ChangeInterface:
			v := r.val(c, in.X)
			v.it = in.X.Type()
			c.env[in] = v
		case *ssa.MakeInterface:
			v := r.val(c, in.X)
			v.dyn = in.X.Type()
			if v.k == 0 {
				v.k, v.n = 'r', r.name(in, "box")
			}
			c.env[in] = v
		case *ssa.TypeAssert:
			v := r.val(c, in.X)
			if v.it == nil {
				v.it = in.X.Type()
			}
			if !types.IsInterface(in.AssertedType) {
				v.dyn = in.AssertedType
			} else {
				v.it = in.AssertedType
			}
			if in.CommaOk {
				v = lv{k: 't', b: []lv{v, {}}}
			}
			c.env[in] = v
		case *ssa.MakeClosure:
			v := lv{k: 'f', fn: in.Fn.(*ssa.Function)}
			for _, x := range in.Bindings {
				v.b = append(v.b, r.val(c, x))
			}
			c.env[in] = v
		case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
			c.env[in.(ssa.Value)] = lv{}
		case *ssa.Select:
			c.env[in] = lv{}
			r.e.unsure("C05", "select in "+r.e.op, site, "select statements are not supported by the join analysis")
		case *ssa.Send:
			x := r.val(c, in.Chan)
			if c.st.cur != nil {
				c.st.sent(x.n)
			}
		case *ssa.DebugRef:
		case *ssa.Defer:
			c.defers = append(c.defers, ldefer{in, r.mkcall(c, &in.Call)})
		case *ssa.Go:
			r.spawn(c, in, site)
		case *ssa.RunDefers:
			cs := r.runDefers(c)
			for k, c2 := range cs {
				if k == len(cs)-1 {
					c = c2
				} else {
					r.block(b, i+1, c2)
				}
			}
			if len(cs) == 0 {
				return
			}
		case *ssa.Call:
			outs := r.call(c, r.mkcall(c, &in.Call), in, site)
			for _, o := range outs {
				c2 := &lcfg{env: map[ssa.Value]lv{}, st: o.st, defers: append([]ldefer(nil), c.defers...)}
				for k, v := range c.env {
					c2.env[k] = v
				}
				if o.st.panic {
					r.unwind(c2)
					continue
				}
				v := lv{}
				if len(o.res) == 1 {
					v = o.res[0]
				} else if len(o.res) > 1 {
					v = lv{k: 't', b: o.res}
				}
				c2.env[in] = v
				r.block(b, i+1, c2)
			}
			return
		case *ssa.Return:
			var res []lv
			for _, x := range in.Results {
				res = append(res, r.val(c, x))
			}
			r.outs = append(r.outs, lout{c.st, res})
			return
		case *ssa.Panic:
			c.st.panic = true
			r.unwind(c)
			return
		case *ssa.Jump:
			r.enter(b.Succs[0], b, c)
			return
		case *ssa.If:
			v := r.val(c, in.Cond)
			if v.k == 'c' && v.n == "true" {
				r.enter(b.Succs[0], b, c)
				return
			}
			if v.k == 'c' && v.n == "false" {
				r.enter(b.Succs[1], b, c)
				return
			}
			c2 := c.clone()
			c2.env[in.Cond] = lv{k: 'c', n: "true"}
			r.enter(b.Succs[0], b, c2)
			c.env[in.Cond] = lv{k: 'c', n: "false"}
			r.enter(b.Succs[1], b, c)
			return
		default:
			r.e.unsure("C01", fmt.Sprintf("unsupported %T in %s", in, fnName(r.fn)), site, "construct not supported by the lock analysis")
			if v, ok := in.(ssa.Value); ok {
				c.env[v] = lv{}
			}
		}
	}
}

// unwind runs the deferred calls of a panicking frame.
func (r *lrun) unwind(c *lcfg) {
	for _, c2 := range r.runDefers(c) {
		if c2.st.panic {
			r.outs = append(r.outs, lout{c2.st, nil})
		} else if r.fn.Recover != nil {
			c2.defers = nil
			r.block(r.fn.Recover, 0, c2)
		} else {
			r.outs = append(r.outs, lout{c2.st, make([]lv, r.fn.Signature.Results().Len())})
		}
	}
}

func (r *lrun) runDefers(c *lcfg) []*lcfg {
	cs := []*lcfg{c}
	for len(c.defers) > 0 {
		d := c.defers[len(c.defers)-1]
		c.defers = c.defers[:len(c.defers)-1]
		var next []*lcfg
		for _, x := range cs {
			was := x.st.unwinding
			x.st.unwinding = x.st.panic
			x.st.panic = false
			for _, o := range r.call(x, d.call, d.in, r.e.w.ipos(d.in)) {
				if o.st.unwinding {
					o.st.panic = true
				}
				o.st.unwinding = was
				n := &lcfg{env: map[ssa.Value]lv{}, st: o.st}
				for k, v := range x.env {
					n.env[k] = v
				}
				next = append(next, n)
			}
		}
		cs = next
	}
	for _, x := range cs {
		x.defers = nil
	}
	return cs
}

func (r *lrun) mkcall(c *lcfg, cc *ssa.CallCommon) lcall {
	k := lcall{rtype: cc.Signature().Results()}
	if cc.IsInvoke() {
		k.invoke = true
		k.method = cc.Method
		v := r.val(c, cc.Value)
		if v.it == nil || !types.IsInterface(v.it) {
			v.it = cc.Value.Type()
		}
		k.args = append(k.args, v)
		k.ptypes = append(k.ptypes, cc.Value.Type())
	} else if b, ok := cc.Value.(*ssa.Builtin); ok {
		k.blt = b
	} else {
		k.fn = r.val(c, cc.Value)
	}
	for _, a := range cc.Args {
		k.args = append(k.args, r.val(c, a))
		k.ptypes = append(k.ptypes, a.Type())
	}
	return k
}

// reported: the goroutine has called Done.
func (s *lstate) reported() bool {
	return len(s.dones) > 0 && strings.HasPrefix(s.dones[0], "wg:")
}

// sent: a goroutine sends to or closes a channel. That reports completion if
// nothing else does.
func (s *lstate) sent(ch string) {
	for _, d := range s.dones {
		if strings.HasPrefix(d, "wg:") || d == "chan:"+ch {
			return
		}
	}
	s.dones = append(s.dones, "chan:"+ch)
}

func (r *lrun) spawn(c *lcfg, in *ssa.Go, site string) {
	r.spawnCall(c, r.mkcall(c, &in.Call), in, site, "")
}

// spawnCall analyses the goroutine's body at its start, in its own access
// context, and leaves it pending until it is joined.
func (r *lrun) spawnCall(c *lcfg, k lcall, in ssa.Instruction, site, autoDone string) {
	e := r.e
	e.nSpawn++
	e.site("go", site)
	st := c.st.clone()
	if st.cur != nil {
		e.unsure("C05", "nested go in "+e.op, site, "a goroutine starts another goroutine; its join cannot be decided")
	}
	for i := range st.locks {
		st.locks[i].inh = true
	}
	st.cur = &lpend{site: site, accs: map[string]lacc{}, acqs: map[string]lacq{}}
	st.dones = nil
	gc := &lcfg{env: c.env, st: st}
	e.inGo++
	outs := r.call(gc, k, in, site)
	e.inGo--
	var res *lpend
	var final *lstate
	doneSet := map[string]bool{}
	for _, o := range outs {
		if o.st.panic {
			continue
		}
		for _, l := range o.st.locks {
			if !l.inh {
				e.report("C01", "goroutine leaks "+e.short(l.name)+" in "+e.op, site, "the goroutine ends while holding %s", e.short(l.name))
			}
		}
		d := append([]string(nil), o.st.dones...)
		if autoDone != "" {
			if len(d) > 0 && strings.HasPrefix(d[0], "chan:") {
				d = nil
			}
			d = append(d, autoDone)
		}
		switch len(d) {
		case 0:
			e.report("C05", "goroutine without completion in "+e.op, site, "a path through the goroutine ends without reporting completion, so it is never waited for")
			doneSet[""] = true
		case 1:
			doneSet[d[0]] = true
		default:
			e.report("C05", "goroutine completes twice in "+e.op, site, "a path through the goroutine reports completion %d times", len(d))
			doneSet[d[0]] = true
		}
		if res == nil {
			res = o.st.cur.clone()
		} else {
			res.join(o.st.cur)
		}
		if final == nil {
			final = o.st
		} else {
			for kk, vs := range o.st.cells {
				for _, v := range vs {
					final.cells[kk] = addVal(final.cells[kk], v)
				}
			}
			for kk, v := range o.st.ren {
				final.ren[kk] = v
			}
			final.hist = append(final.hist, o.st.hist...)
		}
	}
	if res == nil {
		return
	}
	if len(doneSet) > 1 {
		e.report("C05", "goroutine completes inconsistently in "+e.op, site, "different paths through the goroutine report to different wait groups")
	}
	for d := range doneSet {
		res.done = d
	}
	if k.fn.k == 0 && !k.invoke && k.blt == nil {
		e.unsure("C05", "unresolved goroutine in "+e.op, site, "cannot tell which function the goroutine runs")
	}
	// siblings still running
	for _, p := range c.st.pend {
		for _, a := range p.accs {
			for _, b := range res.accs {
				if conflict(a, b, false) {
					e.report("C03", "sibling goroutines: "+e.short(a.name)+" in "+e.op, b.site,
						"%s of %s by the goroutine started at %s races with the %s by the goroutine started at %s (%s)", rw(b.w), e.short(b.name), site, rw(a.w), p.site, a.site)
				}
			}
		}
	}
	c.st.cells, c.st.ren = final.cells, final.ren
	c.st.hist = nil
	seenH := map[string]bool{}
	for _, h := range final.hist {
		hk := fmt.Sprint(h.obj, h.w, h.ids, h.closed, h.needs)
		if !seenH[hk] {
			seenH[hk] = true
			c.st.hist = append(c.st.hist, h)
		}
	}
	dup := false
	for _, p := range c.st.pend {
		if p.key() == res.key() {
			dup = true
			p.join(res)
		}
	}
	if !dup {
		c.st.pend = append(c.st.pend, res)
		sort.Slice(c.st.pend, func(i, j int) bool { return c.st.pend[i].key() < c.st.pend[j].key() })
	}
}

func syncOp(fn *ssa.Function) string {
	if fn == nil || fn.Pkg == nil || fn.Pkg.Pkg.Path() != "sync" {
		return ""
	}
	return strings.NewReplacer("(*sync.", "", ")", "").Replace(fn.String())
}

func (r *lrun) call(c *lcfg, k lcall, in ssa.Instruction, site string) []lout {
	if k.blt != nil {
		return r.builtin(c, k, in, site)
	}
	if k.invoke {
		return r.invoke(c, k, in, site)
	}
	if k.fn.k == 'f' {
		return r.static(c, k.fn.fn, k.fn.b, k, in, site)
	}
	return r.callback(c, k, in, site, "function value")
}

func sigResults(t types.Type) []types.Type {
	tp, ok := t.(*types.Tuple)
	if !ok {
		return nil
	}
	var r []types.Type
	for i := 0; i < tp.Len(); i++ {
		r = append(r, tp.At(i).Type())
	}
	return r
}

func (r *lrun) freshResults(c *lcfg, k lcall, in ssa.Instruction) []lv {
	var res []lv
	for i, t := range sigResults(k.rtype) {
		v := lv{it: ifaceOf(t)}
		if isRefType(t) {
			v.k, v.n = 'r', r.name(in, fmt.Sprintf("result%d", i))
			delete(c.st.ren, v.n)
		}
		res = append(res, v)
	}
	return res
}

// callback is a call of a user-supplied component.
func (r *lrun) callback(c *lcfg, k lcall, in ssa.Instruction, site, what string) []lout {
	e := r.e
	e.nCallback++
	e.site("callback", site)
	st := c.st.clone()
	if st.cur != nil && st.reported() && st.cur.lateCall == "" {
		st.cur.lateCall = what + " at " + site
	}
	cc := &lcfg{env: c.env, st: st}
	start := 0
	if k.invoke {
		start = 1
	}
	sts := []*lstate{cc.st}
	for i := start; i < len(k.args); i++ {
		var next []*lstate
		for _, s := range sts {
			next = append(next, r.exercise(s, k.args[i], k.ptypes[i], in, site)...)
		}
		sts = next
	}
	var outs []lout
	for _, s := range sts {
		res := r.freshResults(&lcfg{st: s}, k, in)
		outs = append(outs, lout{s, res})
		if s.cur == nil {
			if len(s.locks) > 0 {
				e.callbacksUnderLock[site] = true
			}
			p := s.clone()
			p.panic = true
			outs = append(outs, lout{p, nil})
		}
	}
	return outs
}

// exercise lets unknown code use an argument it was given: closures are
// called, interface methods with package implementations are called.
func (r *lrun) exercise(st *lstate, v lv, t types.Type, in ssa.Instruction, site string) []*lstate {
	if v.k == 'f' && v.fn != nil && v.fn.Blocks != nil {
		var out []*lstate
		for _, o := range r.static(&lcfg{env: map[ssa.Value]lv{}, st: st}, v.fn, v.b, lcall{fn: v, args: make([]lv, len(v.fn.Params)), rtype: v.fn.Signature.Results()}, in, site) {
			if !o.st.panic {
				out = append(out, o.st)
			}
		}
		return out
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 || v.k != 'r' {
		if v.k == 'r' && isRefType(t) {
			r.e.access(st, lv{k: 'r', n: v.n + suffixFor(t), tag: v.tag, old: v.old, off: v.off}, false, site)
		}
		return []*lstate{st}
	}
	sts := []*lstate{st}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		var next []*lstate
		for _, s := range sts {
			vv := v
			if vv.it == nil {
				vv.it = t
			}
			a := []lv{vv}
			for j := 0; j < m.Signature().Params().Len(); j++ {
				a = append(a, lv{})
			}
			for _, o := range r.invoke(&lcfg{env: map[ssa.Value]lv{}, st: s}, lcall{invoke: true, method: m, args: a, ptypes: nil, rtype: m.Signature().Results()}, in, site) {
				if !o.st.panic {
					next = append(next, o.st)
				}
			}
		}
		sts = mergeStates(next)
	}
	return sts
}

func suffixFor(t types.Type) string {
	switch t.Underlying().(type) {
	case *types.Map:
		return "{}"
	case *types.Slice:
		return "[*]"
	}
	return ""
}

func (r *lrun) invoke(c *lcfg, k lcall, in ssa.Instruction, site string) []lout {
	recv := k.args[0]
	if recv.dyn != nil {
		if f := r.e.w.lookupMethod(recv.dyn, k.method.Pkg(), k.method.Name()); f != nil {
			kk := k
			kk.invoke = false
			return r.static(c, f, nil, kk, in, site)
		}
	}
	if n, ok := types.Unalias(recv.it).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() == "Locker" {
		mode := byte('W')
		nm := recv.n
		if strings.HasSuffix(nm, "~R") {
			mode = 'R'
			nm = strings.TrimSuffix(nm, "~R")
		}
		v := recv
		v.n = nm
		st := c.st
		if k.method.Name() == "Lock" {
			r.e.lock(st, v, mode, site)
		} else {
			r.e.unlock(st, v, mode, site)
		}
		return []lout{{st, nil}}
	}
	// package implementations of the interface, and, since the value may
	// come from the user, an unknown one
	var outs []lout
	if it, ok := recv.it.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
		for _, t := range r.e.w.implementers(it) {
			f := r.e.w.lookupMethod(t, k.method.Pkg(), k.method.Name())
			if f == nil || f.Blocks == nil {
				continue
			}
			rec := false
			for _, s := range r.e.stack {
				if s == f {
					rec = true
				}
			}
			if rec {
				continue // the same implementation nested in itself: same effects
			}
			cc := c.clone()
			kk := k
			kk.invoke = false
			outs = append(outs, r.static(cc, f, nil, kk, in, site)...)
		}
	}
	outs = append(outs, r.callback(c, k, in, site, "method "+k.method.Name())...)
	return mergeOuts(outs)
}

func mergeOuts(in []lout) []lout {
	seen := map[string]*lstate{}
	var outs []lout
	for _, o := range in {
		k := o.st.key()
		for _, v := range o.res {
			k += "/" + v.key()
		}
		if s := seen[k]; s != nil {
			s.join(o.st)
		} else {
			seen[k] = o.st
			outs = append(outs, o)
		}
	}
	return outs
}

func (r *lrun) static(c *lcfg, fn *ssa.Function, binds []lv, k lcall, in ssa.Instruction, site string) []lout {
	e := r.e
	st := c.st
	one := func(res ...lv) []lout { return []lout{{st, res}} }
	if op := syncOp(fn); op != "" {
		var a lv
		if len(k.args) > 0 {
			a = k.args[0]
		}
		switch op {
		case "Mutex.Lock", "RWMutex.Lock":
			e.lock(st, a, 'W', site)
			return one()
		case "RWMutex.RLock":
			e.lock(st, a, 'R', site)
			return one()
		case "Mutex.Unlock", "RWMutex.Unlock":
			e.unlock(st, a, 'W', site)
			return one()
		case "RWMutex.RUnlock":
			e.unlock(st, a, 'R', site)
			return one()
		case "Mutex.TryLock", "RWMutex.TryLock", "RWMutex.TryRLock":
			s2 := st.clone()
			m := byte('W')
			if strings.HasSuffix(op, "RLock") {
				m = 'R'
			}
			e.lock(s2, a, m, site)
			return []lout{{st, []lv{{k: 'c', n: "false"}}}, {s2, []lv{{k: 'c', n: "true"}}}}
		case "RWMutex.RLocker":
			a.n += "~R"
			return one(a)
		case "WaitGroup.Add":
			if st.cur != nil {
				e.report("C05", "Add inside goroutine in "+e.op, site, "the wait group is incremented by the goroutine itself, so the wait may finish before it")
			}
			return one()
		case "WaitGroup.Done":
			if st.cur != nil {
				if n := len(st.dones); n > 0 && strings.HasPrefix(st.dones[n-1], "chan:") {
					// the channel carries a result or a token
					st.dones = st.dones[:n-1]
				}
				st.dones = append(st.dones, "wg:"+st.canon(a.n))
			}
			return one()
		case "WaitGroup.Wait":
			if st.cur != nil {
				e.unsure("C05", "Wait inside goroutine in "+e.op, site, "a goroutine waits on a wait group; its termination cannot be decided")
			}
			e.join(st, "wg:"+st.canon(a.n), site)
			return one()
		case "WaitGroup.Go":
			kk := lcall{fn: k.args[1]}
			if k.args[1].k == 'f' {
				kk.rtype = k.args[1].fn.Signature.Results()
			}
			r.spawnCall(c, kk, in, site, "wg:"+st.canon(a.n))
			return []lout{{c.st, nil}}
		case "Once.Do":
			s2 := st.clone()
			outs := []lout{{s2, nil}}
			if k.args[1].k == 'f' {
				for _, o := range r.call(c, lcall{fn: k.args[1], rtype: k.args[1].fn.Signature.Results()}, in, site) {
					outs = append(outs, lout{o.st, nil})
				}
			}
			return outs
		}
		e.unsure("C01", "unsupported sync."+op+" in "+e.op, site, "synchronisation primitive not supported by the lock analysis")
		return one(r.freshResults(c, k, in)...)
	}
	pkgPath := ""
	if p := fnPkg(fn); p != nil {
		pkgPath = p.Path()
	}
	own := strings.HasPrefix(pkgPath, "github.com/sonirico/visigoth")
	inline := fn.Blocks != nil && (own || transparent[pkgPath] && !opaqueSort(fn) || fn.Synthetic != "")
	if inline && pkgPath != "sync" {
		ctx := fmt.Sprintf("%s/%d", r.ctx, e.w.id(in))
		if own || true {
			e.trace = append(e.trace, fnName(fn)+" ("+strings.SplitN(site, " ", 2)[0]+")")
		}
		outs := e.exec(fn, k.args, binds, ctx, st)
		e.trace = e.trace[:len(e.trace)-1]
		// closures captured in results keep their bindings
		return outs
	}
	// opaque function of another package
	writes := pkgPath == "sort" || pkgPath == "slices" || pkgPath == "math/rand"
	sts := []*lstate{st}
	forArg := func(v lv, t types.Type) {
		var next []*lstate
		for _, s := range sts {
			if v.k == 'r' {
				for _, x := range r.contentsOf(s, v) {
					if x.k != 'r' && x.k != 'f' {
						continue
					}
					next2 := r.opaqueArg(s, x, nil, in, site, writes, pkgPath)
					if len(next2) > 0 {
						s = next2[0]
						next = append(next, next2[1:]...)
					}
				}
			}
			next = append(next, r.opaqueArg(s, v, t, in, site, writes, pkgPath)...)
		}
		sts = next
	}
	for i, a := range k.args {
		var t types.Type
		if i < len(k.ptypes) {
			t = k.ptypes[i]
		}
		forArg(a, t)
	}
	var outs []lout
	for _, s := range mergeStates(sts) {
		outs = append(outs, lout{s, r.freshResults(&lcfg{st: s}, k, in)})
	}
	return outs
}

func mergeStates(in []*lstate) []*lstate {
	seen := map[string]*lstate{}
	var out []*lstate
	for _, s := range in {
		k := s.key()
		if o := seen[k]; o != nil {
			o.join(s)
		} else {
			seen[k] = s
			out = append(out, s)
		}
	}
	return out
}

// opaqueSort: the pattern-defeating quicksort and friends are taken as
// primitive: they permute their argument and call the comparison.
func opaqueSort(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	switch fn.Name() {
	case "Sort", "SortFunc", "SortStableFunc":
		return true
	}
	return false
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	return nil
}

func (r *lrun) contentsOf(st *lstate, v lv) []lv {
	n := st.canon(v.n)
	return st.cells[n+"[*]"]
}

func (r *lrun) opaqueArg(st *lstate, v lv, t types.Type, in ssa.Instruction, site string, writes bool, pkg string) []*lstate {
	if v.k == 'f' {
		return r.exercise(st, v, types.NewSignatureType(nil, nil, nil, nil, nil, false), in, site)
	}
	if v.k != 'r' {
		return []*lstate{st}
	}
	if t != nil {
		if s := suffixFor(t); s != "" {
			x := v
			x.n += s
			r.e.access(st, x, writes, site)
		}
	}
	var names []string
	switch pkg {
	case "fmt", "log", "errors", "strings":
		names = []string{"String", "Error", "Format", "GoString"}
	case "sort":
		names = []string{"Len", "Less", "Swap"}
	}
	sts := []*lstate{st}
	for _, nm := range names {
		var cands []types.Type
		if v.dyn != nil {
			cands = []types.Type{v.dyn}
		} else if v.it != nil {
			if it, ok := v.it.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
				cands = r.e.w.implementers(it)
			}
		}
		for _, ct := range cands {
			f := r.e.w.lookupMethod(ct, r.e.w.Pkg.Types, nm)
			if f == nil || f.Blocks == nil || fnPkg(f) != r.e.w.Pkg.Types && f.Synthetic == "" {
				continue
			}
			args := make([]lv, len(f.Params))
			args[0] = v
			var next []*lstate
			for _, s := range sts {
				for _, o := range r.static(&lcfg{env: map[ssa.Value]lv{}, st: s}, f, nil, lcall{fn: lv{k: 'f', fn: f}, args: args, rtype: f.Signature.Results()}, in, site) {
					if !o.st.panic {
						next = append(next, o.st)
					}
				}
			}
			sts = next
		}
	}
	return sts
}

func (r *lrun) builtin(c *lcfg, k lcall, in ssa.Instruction, site string) []lout {
	e := r.e
	st := c.st
	one := func(res ...lv) []lout { return []lout{{st, res}} }
	sub := func(v lv, s string) lv {
		if v.k == 'r' {
			v.n = limitName(v.n + s)
		}
		return v
	}
	switch k.blt.Name() {
	case "len", "cap":
		if len(k.ptypes) > 0 {
			if _, ok := k.ptypes[0].Underlying().(*types.Map); ok {
				e.access(st, sub(k.args[0], "{}"), false, site)
			}
		}
		return one(lv{})
	case "append":
		s := k.args[0]
		if s.k != 'r' {
			s = lv{k: 'r', n: r.name(in, "append")}
			delete(st.ren, s.n)
		} else {
			e.access(st, sub(s, "[*]"), false, site)
			e.access(st, sub(s, "[*]"), true, site)
		}
		if len(k.args) > 1 && k.args[1].k == 'r' {
			e.access(st, sub(k.args[1], "[*]"), false, site)
			r.moveElems(c, s, k.args[1], k.ptypes[1])
		}
		return one(s)
	case "copy":
		e.access(st, sub(k.args[0], "[*]"), true, site)
		e.access(st, sub(k.args[1], "[*]"), false, site)
		r.moveElems(c, k.args[0], k.args[1], k.ptypes[1])
		return one(lv{})
	case "delete":
		e.access(st, sub(k.args[0], "{}"), true, site)
		return one()
	case "clear":
		e.access(st, sub(k.args[0], suffixFor(k.ptypes[0])), true, site)
		return one()
	case "close":
		if st.cur != nil {
			st.dones = append(st.dones, "chan:"+k.args[0].n)
		}
		return one()
	case "recover":
		st.unwinding = false
		return one(lv{})
	}
	return one(lv{})
}

// moveElems copies the elements of slice src to slice dst.
func (r *lrun) moveElems(c *lcfg, dst, src lv, t types.Type) {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok || dst.k != 'r' || src.k != 'r' {
		return
	}
	da := lv{k: 'r', n: limitName(c.st.canon(dst.n) + "[*]")}
	sa := lv{k: 'r', n: limitName(c.st.canon(src.n) + "[*]")}
	if da.n == sa.n || !isRefType(sl.Elem()) {
		return
	}
	if _, isStruct := sl.Elem().Underlying().(*types.Struct); !isStruct && isLocal(sa.n) && len(c.st.cells[sa.n]) == 0 {
		return // nothing was stored there
	}
	for _, v := range r.load(c, sa, sl.Elem()) {
		v.tag = ""
		r.store(c, da, v, sl.Elem())
	}
}
