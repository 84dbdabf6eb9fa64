package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Obl is one decided obligation: a rule instance at a construct.
type Obl struct {
	Key    string // rule + construct, stable over line changes
	Where  string
	Status string // "ok", "violated", "undecided"
	Detail string
}

// Report collects the obligations of one property.
type Report struct {
	Prop      string
	Obls      []Obl
	Cov       map[string]any
	Rule      string
	Assume    []string
	seen      map[string]int
	mu        sync.Mutex
	wg        sync.WaitGroup
	start     time.Time
	confirmed int
	crashes   bool   // only crashes are reported
	family    string // prefix of the keys of scenarios
}

func newReport(p string) *Report {
	return &Report{Prop: p, Cov: map[string]any{}, seen: map[string]int{}, start: time.Now()}
}

func (r *Report) add(key, where, status, detail string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	k := key + "|" + status
	if i, ok := r.seen[k]; ok {
		if status != "ok" && len(r.Obls[i].Detail) < 4000 && !strings.Contains(r.Obls[i].Detail, detail) {
			r.Obls[i].Detail += "\n    also: " + where + " " + detail
		}
		return
	}
	r.seen[k] = len(r.Obls)
	r.Obls = append(r.Obls, Obl{key, where, status, detail})
}
func (r *Report) ok(key, where string) { r.add(key, where, "ok", "") }
func (r *Report) bad(key, where, f string, a ...any) {
	r.add(key, where, "violated", fmt.Sprintf(f, a...))
}
func (r *Report) undecided(key, where, f string, a ...any) {
	r.add(key, where, "undecided", fmt.Sprintf(f, a...))
}

// unknown: the analysis gives no answer for this instance (a construct it does
// not model). No claim is made and no alarm raised.
func (r *Report) unknown(key, where, f string, a ...any) {
	r.add(key, where, "unknown", fmt.Sprintf(f, a...))
}
func (r *Report) floor(what string, n, min int) {
	r.Cov[what] = n
	switch {
	case n == 0 && min > 0:
		r.undecided("floor:"+what, "-", "no %s analysed, at least %d were confirmed by hand", what, min)
	case n < min:
		// the code may have become smaller: no verdict on what is missing
		r.unknown("floor:"+what, "-", "only %d %s analysed, at least %d were confirmed by hand", n, what, min)
	}
}

type known struct{ prop, key, what string }

func readKnown(path string) []known {
	var r []known
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN ") {
			continue
		}
		var k known
		rest := strings.TrimPrefix(l, "KNOWN ")
		for _, f := range []struct {
			p string
			d *string
		}{{"property=", &k.prop}, {"key=", &k.key}} {
			if !strings.HasPrefix(rest, f.p) {
				continue
			}
			rest = rest[len(f.p):]
			i := strings.IndexByte(rest, ' ')
			if i < 0 {
				i = len(rest)
			}
			*f.d = rest[:i]
			rest = strings.TrimSpace(rest[i:])
		}
		k.what = rest
		r = append(r, k)
	}
	return r
}

// finish prints the verdict, writes the evidence and returns the exit code.
func (r *Report) finish(verif string, start time.Time, tier string) int {
	sort.SliceStable(r.Obls, func(i, j int) bool { return r.Obls[i].Key < r.Obls[j].Key })
	kn := readKnown(filepath.Join(verif, "known_findings.txt"))
	var bad []Obl
	okN, unk := 0, 0
	printed := map[string]bool{}
	for _, o := range r.Obls {
		if o.Status == "ok" {
			okN++
			continue
		}
		isKnown := false
		for _, k := range kn {
			if k.prop == r.Prop && k.key == strings.ReplaceAll(o.Key, " ", "_") && o.Status == "violated" {
				isKnown = true
				if !printed[k.key] {
					printed[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k.what)
				}
			}
		}
		if o.Status == "unknown" {
			unk++
			continue
		}
		if !isKnown {
			bad = append(bad, o)
		}
	}
	if len(r.Obls) == 0 {
		bad = append(bad, Obl{"floor:obligations", "-", "undecided", "no obligation was generated"})
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var samples []string
	for i, o := range r.Obls {
		if i%(len(r.Obls)/12+1) == 0 {
			samples = append(samples, o.Status+" "+o.Key+" @ "+o.Where)
		}
	}
	r.Cov["obligations"] = len(r.Obls)
	r.Cov["discharged"] = okN
	r.Cov["not_decided"] = unk
	for _, o := range r.Obls {
		if o.Status == "unknown" {
			fmt.Printf("NOT-DECIDED property=%s %s: %s\n", r.Prop, o.Key, strings.SplitN(o.Detail, "\n", 2)[0])
		}
	}
	if m, ok := r.Cov["functions"].(map[string]bool); ok {
		var l []string
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		r.Cov["functions"] = l
	}
	r.Cov["samples"] = samples
	r.Cov["explanation"] = r.Rule
	ev := map[string]any{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": r.Cov, "assumptions": append([]string{}, r.Assume...),
		"wall_s": time.Since(start).Seconds(), "violations": len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, r.Prop+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	rep := filepath.Join(evdir, r.Prop+".violation.txt")
	if len(bad) == 0 {
		os.Remove(rep)
		fmt.Printf("OK property=%s obligations=%d\n", r.Prop, len(r.Obls))
		return 0
	}
	var s strings.Builder
	fmt.Fprintf(&s, "property %s: %d obligation(s) not met\nrule: %s\n\n", r.Prop, len(bad), r.Rule)
	for _, o := range bad {
		fmt.Fprintf(&s, "[%s] %s\n  at %s\n  %s\n\n", o.Status, o.Key, o.Where, o.Detail)
	}
	os.WriteFile(rep, []byte(s.String()), 0o644)
	fmt.Print(s.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rep)
	return 1
}
