package main

import "fmt"

// Generalisation of two linear sets with the same base: the directions are
// closed to the cone that is cut out of their span by the inequalities that
// hold for all of them and are of use for sequences (a number is not negative,
// one position is not after another, or not after a boundary of a segment).

type funcl []int // coefficients of a linear functional

// templates lists the candidate inequalities f(x) >= 0 for the slots; arr
// gives the array that a slot is a segment length of (0: none).
func templates(arr []int) []funcl {
	n := len(arr)
	var fs []funcl
	unit := func(i int) funcl {
		f := make(funcl, n)
		f[i] = 1
		return f
	}
	minus := func(f funcl, i int) funcl {
		g := append(funcl{}, f...)
		g[i]--
		return g
	}
	var ints []int
	for i := 0; i < n; i++ {
		fs = append(fs, unit(i))
		if arr[i] == 0 {
			ints = append(ints, i)
		}
	}
	for _, i := range ints {
		for _, j := range ints {
			if i != j {
				fs = append(fs, minus(unit(i), j))
			}
		}
	}
	sums := map[int]funcl{}
	for i := 0; i < n; i++ {
		a := arr[i]
		if a <= 0 {
			continue
		}
		if sums[a] == nil {
			sums[a] = make(funcl, n)
		}
		sums[a][i] = 1
		for _, j := range ints {
			f := minus(sums[a], j)
			g := make(funcl, n)
			for k := range f {
				g[k] = -f[k]
			}
			fs = append(fs, f, g)
		}
	}
	return fs
}

func (f funcl) at(x []int) int {
	r := 0
	for i, c := range f {
		if c != 0 {
			r += c * x[i]
		}
	}
	return r
}

// closeCone returns generators of the cone; nil when it gets too large.
func closeCone(gens [][]int, fs []funcl) [][]int {
	basis, piv := echelon(gens)
	k := len(basis)
	if k == 0 || k > 14 {
		return nil
	}
	// constraints in coordinates of the basis
	seen := map[string]bool{}
	var cons [][]int
next:
	for _, f := range fs {
		for _, g := range gens {
			if f.at(g) < 0 {
				continue next
			}
		}
		c := make([]int, k)
		for i, b := range basis {
			c[i] = f.at(b)
		}
		prim(c)
		if key := fmt.Sprint(c); !isZero(c) && !seen[key] {
			seen[key] = true
			cons = append(cons, c)
		}
	}
	_ = piv
	rays, lines, ok := rayGens(cons, k)
	if !ok {
		return nil
	}
	back := func(y []int, s int) []int {
		x := make([]int, len(basis[0]))
		for i, b := range basis {
			if y[i] != 0 {
				for j := range x {
					x[j] += s * y[i] * b[j]
				}
			}
		}
		prim(x)
		return x
	}
	var out [][]int
	for _, r := range rays {
		out = append(out, back(r, 1))
	}
	for _, l := range lines {
		out = append(out, back(l, 1), back(l, -1))
	}
	for _, g := range gens { // integer points that the rays do not generate
		fuel := 4000
		if !cone(g, out, &fuel) {
			out = append(out, g)
		}
	}
	return out
}

// echelon returns an integer basis of the rational span.
func echelon(gens [][]int) (basis [][]int, piv []int) {
	var rows [][]int
	for _, g := range gens {
		rows = append(rows, append([]int{}, g...))
	}
	if len(rows) == 0 {
		return nil, nil
	}
	r := 0
	for c := 0; c < len(rows[0]) && r < len(rows); c++ {
		p := -1
		for i := r; i < len(rows); i++ {
			if rows[i][c] != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		rows[r], rows[p] = rows[p], rows[r]
		if rows[r][c] < 0 {
			for j := range rows[r] {
				rows[r][j] = -rows[r][j]
			}
		}
		for i := range rows {
			if i != r && rows[i][c] != 0 {
				a, b := rows[r][c], rows[i][c]
				for j := range rows[i] {
					rows[i][j] = a*rows[i][j] - b*rows[r][j]
				}
				prim(rows[i])
			}
		}
		prim(rows[r])
		piv = append(piv, c)
		r++
	}
	return rows[:r], piv
}

func prim(v []int) {
	g := 0
	for _, x := range v {
		for a, b := g, abs(x); ; a, b = b, a%b {
			if b == 0 {
				g = a
				break
			}
		}
	}
	if g > 1 {
		for i := range v {
			v[i] /= g
		}
	}
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func dot(a, b []int) int {
	r := 0
	for i := range a {
		r += a[i] * b[i]
	}
	return r
}

// comb returns p*x + q*y, reduced.
func comb(p int, x []int, q int, y []int) []int {
	z := make([]int, len(x))
	for i := range z {
		z[i] = p*x[i] + q*y[i]
	}
	prim(z)
	return z
}

// rayGens computes the extreme rays and the lineality space of {y: cons y >= 0}
// (double description).
func rayGens(cons [][]int, k int) (rays, lines [][]int, ok bool) {
	for i := 0; i < k; i++ {
		u := make([]int, k)
		u[i] = 1
		lines = append(lines, u)
	}
	for ci, f := range cons {
		li := -1
		for i, l := range lines {
			if dot(f, l) != 0 {
				li = i
				break
			}
		}
		if li >= 0 {
			l := lines[li]
			d := dot(f, l)
			if d < 0 {
				for i := range l {
					l[i] = -l[i]
				}
				d = -d
			}
			var nl [][]int
			for i, m := range lines {
				if i != li {
					nl = append(nl, comb(d, m, -dot(f, m), l))
				}
			}
			for i, r := range rays {
				rays[i] = comb(d, r, -dot(f, r), l)
			}
			lines = nl
			rays = append(rays, append([]int{}, l...))
			continue
		}
		zero := func(r []int) string {
			b := make([]byte, ci)
			for i := 0; i < ci; i++ {
				b[i] = '0'
				if dot(cons[i], r) == 0 {
					b[i] = '1'
				}
			}
			return string(b)
		}
		zs := make([]string, len(rays))
		val := make([]int, len(rays))
		for i, r := range rays {
			zs[i], val[i] = zero(r), dot(f, r)
		}
		var nr [][]int
		for i, r := range rays {
			if val[i] >= 0 {
				nr = append(nr, r)
			}
		}
		for i, p := range rays {
			if val[i] <= 0 {
				continue
			}
			for j, q := range rays {
				if val[j] >= 0 {
					continue
				}
				adjacent := true
				for h := range rays {
					if h == i || h == j {
						continue
					}
					all := true
					for x := 0; x < ci; x++ {
						if zs[i][x] == '1' && zs[j][x] == '1' && zs[h][x] != '1' {
							all = false
							break
						}
					}
					if all {
						adjacent = false
						break
					}
				}
				if adjacent {
					nr = append(nr, comb(val[i], q, -val[j], p))
				}
			}
		}
		rays = nr
		if len(rays) > 60 {
			return nil, nil, false
		}
	}
	return rays, lines, true
}

// lowerBase looks for a base below the given one that keeps more of the
// inequalities that hold in both sets; nil when there is none.
func lowerBase(base []int, a, b linset, gens [][]int, isLen []bool, fs []funcl) []int {
	var dirs [][]int
	for _, g := range gens {
		if isZero(g) {
			continue
		}
		ok := false
		for i, x := range g {
			if isLen[i] && x < 0 {
				ok = false
				break
			}
			ok = ok || x > 0
		}
		if ok {
			dirs = append(dirs, g)
		}
	}
	if len(dirs) > 14 {
		dirs = dirs[:14]
	}
	var keep []funcl
	seen := map[string]bool{}
	for _, f := range fs {
		ok := true
		for _, g := range a.gens {
			ok = ok && f.at(g) >= 0
		}
		for _, g := range b.gens {
			ok = ok && f.at(g) >= 0
		}
		if !ok {
			continue
		}
		key := []int{f.at(a.base) - f.at(base), f.at(b.base) - f.at(base)}
		for _, d := range dirs {
			key = append(key, f.at(d))
		}
		if k := fmt.Sprint(key); !seen[k] {
			seen[k] = true
			keep = append(keep, f)
		}
	}
	score := func(c []int) int {
		r := 0
		for _, f := range keep {
			v := f.at(c)
			if f.at(a.base) >= v && f.at(b.base) >= v {
				r++
			}
		}
		return r
	}
	best, bv := score(base), []int(nil)
	if best == len(keep) {
		return nil
	}
	for again := true; again; {
		again = false
		for _, d := range dirs {
			c := append([]int{}, base...)
			ok := true
			for i := range c {
				c[i] -= d[i]
				ok = ok && !(isLen[i] && c[i] < 0)
			}
			if !ok {
				continue
			}
			if s := score(c); s > best {
				best, bv, base, again = s, c, c, true
			}
		}
	}
	return bv
}

// meetBase looks for a point of the common affine hull whose lengths are not
// above those of both bases.
func meetBase(a, b linset, isLen []bool) []int {
	c := append([]int{}, a.base...)
	dirs := append(append([][]int{}, a.gens...), b.gens...)
	for step := 0; step < 30; step++ {
		over := -1
		for i := range c {
			if isLen[i] && c[i] > b.base[i] {
				over = i
				break
			}
		}
		if over < 0 {
			return c
		}
		var best []int
		bs := 0
		for _, d := range dirs {
			if d[over] <= 0 {
				continue
			}
			cost, ok := 0, true
			for i := range c {
				if isLen[i] && c[i]-d[i] < 0 || isLen[i] && d[i] < 0 {
					ok = false
				}
				if isLen[i] && d[i] > 0 && c[i] <= b.base[i] {
					cost++
				}
			}
			if ok && (best == nil || cost < bs) {
				best, bs = d, cost
			}
		}
		if best == nil {
			return nil
		}
		for i := range c {
			c[i] -= best[i]
		}
	}
	return nil
}

const widenFrom = 24 // joins from which on components become independent

// projJoin generalises two linear sets to what simple relations say about
// them: equations between two numbers, or between a number and a prefix of an
// array, and the inequalities ineqs.
func projJoin(a, b linset, base []int, arr []int, isLen []bool, ineqs []funcl, level int) (linset, bool) {
	n := len(base)
	unit := func(i int) funcl {
		f := make(funcl, n)
		f[i] = 1
		return f
	}
	minus := func(f funcl, i int) funcl {
		g := append(funcl{}, f...)
		g[i]--
		return g
	}
	isEq := func(f funcl) bool {
		if f.at(a.base) != f.at(b.base) {
			return false
		}
		for _, g := range a.gens {
			if f.at(g) != 0 {
				return false
			}
		}
		for _, g := range b.gens {
			if f.at(g) != 0 {
				return false
			}
		}
		return true
	}
	var eqs [][]int
	add := func(f funcl) {
		if isEq(f) {
			eqs = append(eqs, f)
		}
	}
	sums := map[int]funcl{}
	for i := 0; i < n; i++ {
		add(unit(i))
		for j := i + 1; j < n; j++ {
			add(minus(unit(i), j))
		}
		if x := arr[i]; x > 0 {
			if sums[x] == nil {
				sums[x] = make(funcl, n)
			}
			sums[x][i] = 1
			for j := 0; j < n; j++ {
				if arr[j] == 0 {
					add(minus(sums[x], j))
				}
			}
		}
	}
	basis := nullspace(eqs, n)
	k := len(basis)
	for i, l := range isLen {
		if l {
			ineqs = append(ineqs, unit(i))
		}
	}
	type bound struct {
		f funcl
		c int
	}
	var bs []bound
	seen := map[string]bool{}
next:
	for _, f := range ineqs {
		for _, g := range a.gens {
			if f.at(g) < 0 {
				continue next
			}
		}
		for _, g := range b.gens {
			if f.at(g) < 0 {
				continue next
			}
		}
		c := make([]int, k)
		for i, v := range basis {
			c[i] = f.at(v)
		}
		if key := fmt.Sprint(c, f.at(a.base)); isZero(c) || seen[key] {
			continue
		} else {
			seen[key] = true
		}
		x, y := f.at(a.base), f.at(b.base)
		m := min(x, y)
		if m < 0 {
			continue
		}
		bs = append(bs, bound{f, m})
	}
	// a point at which no inequality has slack that the sets do not have, and
	// as few as possible are violated
	score := func(p []int) int {
		r := 0
		for _, x := range bs {
			if d := x.f.at(p) - x.c; d > 0 {
				r -= 1000 * d
			} else {
				r += d
			}
		}
		return r
	}
	in := func(p []int) bool {
		for i := range p {
			if isLen[i] && p[i] < 0 {
				return false
			}
		}
		for _, f := range eqs {
			if dot(f, p) != dot(f, a.base) {
				return false
			}
		}
		return true
	}
	var p []int
	best := 0
	cands := [][]int{base, a.base, b.base}
	if c := meetBase(a, b, isLen); c != nil {
		cands = append(cands, c)
	}
	for _, c := range cands {
		if in(c) {
			if s := score(c); p == nil || s > best {
				p, best = c, s
			}
		}
	}
	if p == nil {
		return linset{}, false
	}
	var all [][]int
	for _, x := range bs {
		c := make([]int, k)
		for i, v := range basis {
			c[i] = x.f.at(v)
		}
		all = append(all, c)
	}
	for _, cols := range components(all, k) {
		var dirs [][]int
		var rec func(i int, d []int, m int)
		rec = func(i int, d []int, m int) {
			if i == len(cols) {
				if !isZero(d) {
					dirs = append(dirs, d)
				}
				return
			}
			rec(i+1, d, m)
			if m > 0 {
				for _, sg := range []int{1, -1} {
					e := append([]int{}, d...)
					for j, x := range basis[cols[i]] {
						e[j] += sg * x
					}
					rec(i+1, e, m-1)
				}
			}
		}
		m := 2
		if len(cols) <= 6 {
			m = 4
		}
		rec(0, make([]int, n), m)
		for again := true; again && best < 0; {
			again = false
			for _, d := range dirs {
				q := append([]int{}, p...)
				for i := range q {
					q[i] += d[i]
				}
				if !in(q) {
					continue
				}
				if s := score(q); s > best {
					p, best, again = q, s, true
				}
			}
		}
	}
	if level < 2 {
		for _, x := range bs {
			if x.f.at(p) > x.c {
				if debugJoin {
					fmt.Println("REFUSED", x.f, x.f.at(p), x.c)
				}
				return linset{}, false
			}
		}
	}
	var cons [][]int
	for _, x := range bs {
		if x.f.at(p) > x.c {
			continue
		}
		c := make([]int, k)
		for i, v := range basis {
			c[i] = x.f.at(v)
		}
		prim(c)
		cons = append(cons, c)
	}
	rays, lines, ok := splitRays(cons, k)
	if !ok {
		return linset{}, false
	}
	back := func(y []int, s int) []int {
		x := make([]int, n)
		for i, v := range basis {
			if y[i] != 0 {
				for j := range x {
					x[j] += s * y[i] * v[j]
				}
			}
		}
		prim(x)
		return x
	}
	var gens [][]int
	for _, r := range rays {
		gens = append(gens, back(r, 1))
	}
	for _, l := range lines {
		gens = append(gens, back(l, 1), back(l, -1))
	}
	more := append(append([][]int{}, a.gens...), b.gens...)
	for _, o := range [][]int{a.base, b.base} {
		d := make([]int, n)
		for i := range d {
			d[i] = o[i] - p[i]
		}
		more = append(more, d)
	}
	for _, g := range more {
		if isZero(g) {
			continue
		}
		fuel := 4000
		if !cone(g, gens, &fuel) {
			gens = append(gens, g)
		}
	}
	return linset{p, gens}.reduce(), true
}

// nullspace returns an integer basis of {x: eqs x = 0}.
func nullspace(eqs [][]int, n int) [][]int {
	rows, piv := echelon(eqs)
	at := map[int]int{}
	for i, c := range piv {
		at[c] = i
	}
	var out [][]int
	for c := 0; c < n; c++ {
		if _, ok := at[c]; ok {
			continue
		}
		m := 1
		for i, p := range piv {
			if rows[i][c] != 0 {
				d := rows[i][p] // positive
				m = m / gcd(m, d) * d
			}
		}
		x := make([]int, n)
		x[c] = m
		for i, p := range piv {
			x[p] = -m * rows[i][c] / rows[i][p]
		}
		prim(x)
		out = append(out, x)
	}
	return out
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return abs(a)
}

// splitRays is rayGens on the connected components of the constraints.
func splitRays(cons [][]int, k int) (rays, lines [][]int, ok bool) {
	for _, cols := range components(cons, k) {
		var sub [][]int
		seen := map[string]bool{}
		for _, c := range cons {
			d := make([]int, len(cols))
			for i, j := range cols {
				d[i] = c[j]
			}
			if key := fmt.Sprint(d); !isZero(d) && !seen[key] {
				seen[key] = true
				sub = append(sub, d)
			}
		}
		rs, ls, ok := rayGens(sub, len(cols))
		if !ok {
			return nil, nil, false
		}
		up := func(v []int) []int {
			x := make([]int, k)
			for i, j := range cols {
				x[j] = v[i]
			}
			return x
		}
		for _, v := range rs {
			rays = append(rays, up(v))
		}
		for _, v := range ls {
			lines = append(lines, up(v))
		}
	}
	return rays, lines, true
}

// components returns the sets of coordinates that constraints connect.
func components(cons [][]int, k int) (out [][]int) {
	root := make([]int, k)
	for i := range root {
		root[i] = i
	}
	find := func(i int) int {
		for root[i] != i {
			i = root[i]
		}
		return i
	}
	for _, c := range cons {
		f := -1
		for i, x := range c {
			if x != 0 {
				if f >= 0 {
					root[find(i)] = find(f)
				}
				f = i
			}
		}
	}
	for r := 0; r < k; r++ {
		if find(r) != r {
			continue
		}
		var cols []int
		for i := 0; i < k; i++ {
			if find(i) == r {
				cols = append(cols, i)
			}
		}
		out = append(out, cols)
	}
	return out
}
