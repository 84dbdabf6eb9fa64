package main

import (
	"fmt"
	"sort"
	"strings"
)

// Lin is a linear form c + sum(coef*atom) over integer atoms. Atoms are the
// lengths of sequence segments or otherwise unknown integers.
type Lin struct {
	C int
	T []linTerm // sorted by atom, coef != 0
}

type linTerm struct{ A, K int }

func lc(c int) Lin    { return Lin{C: c} }
func la(atom int) Lin { return Lin{T: []linTerm{{atom, 1}}} }

func (l Lin) add(m Lin) Lin { return l.axpy(1, m) }
func (l Lin) sub(m Lin) Lin { return l.axpy(-1, m) }
func (l Lin) addc(c int) Lin {
	return Lin{l.C + c, l.T}
}

func (l Lin) axpy(k int, m Lin) Lin {
	r := Lin{C: l.C + k*m.C}
	i, j := 0, 0
	for i < len(l.T) || j < len(m.T) {
		switch {
		case j >= len(m.T) || i < len(l.T) && l.T[i].A < m.T[j].A:
			r.T = append(r.T, l.T[i])
			i++
		case i >= len(l.T) || m.T[j].A < l.T[i].A:
			if k != 0 {
				r.T = append(r.T, linTerm{m.T[j].A, k * m.T[j].K})
			}
			j++
		default:
			if c := l.T[i].K + k*m.T[j].K; c != 0 {
				r.T = append(r.T, linTerm{l.T[i].A, c})
			}
			i++
			j++
		}
	}
	if hardStop.Load() {
		undec("time for the analysis is over")
	}
	if len(r.T) > 300 {
		undec("too many sizes that depend on each other")
	}
	return r
}

func (l Lin) mul(k int) Lin { return Lin{}.axpy(k, l) }

func (l Lin) isConst() bool { return len(l.T) == 0 }
func (l Lin) eq(m Lin) bool {
	if l.C != m.C || len(l.T) != len(m.T) {
		return false
	}
	for i := range l.T {
		if l.T[i] != m.T[i] {
			return false
		}
	}
	return true
}

func (l Lin) coef(a int) int {
	for _, t := range l.T {
		if t.A == a {
			return t.K
		}
	}
	return 0
}

// with replaces atom a by m.
func (l Lin) with(a int, m Lin) Lin {
	k := l.coef(a)
	if k == 0 {
		return l
	}
	return l.sub(la(a).mul(k)).add(m.mul(k))
}

func (l Lin) String() string {
	var b strings.Builder
	for i, t := range l.T {
		if t.K == 1 {
			if i > 0 {
				b.WriteByte('+')
			}
		} else if t.K == -1 {
			b.WriteByte('-')
		} else {
			fmt.Fprintf(&b, "%+d*", t.K)
		}
		fmt.Fprintf(&b, "n%d", t.A)
	}
	if l.C != 0 || len(l.T) == 0 {
		if len(l.T) > 0 {
			fmt.Fprintf(&b, "%+d", l.C)
		} else {
			fmt.Fprintf(&b, "%d", l.C)
		}
	}
	return b.String()
}

func sortTerms(t []linTerm) []linTerm {
	sort.Slice(t, func(i, j int) bool { return t[i].A < t[j].A })
	return t
}
