package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Finding struct {
	Key string // rule + construct, no line numbers
	Pos string
	Msg string
}

type Result struct {
	Findings    []Finding
	Units       map[string]int // counts of what was analysed
	Rules       []string
	Samples     []any
	Minimum     map[string]int // floor per unit, confirmed by hand
	Assume      []string
	Explain     string
	obl, dischg int
}

func NewResult(explain string) *Result {
	return &Result{Units: map[string]int{}, Minimum: map[string]int{}, Explain: explain}
}

func (r *Result) Add(key, pos, format string, a ...any) {
	f := Finding{Key: key, Pos: pos, Msg: fmt.Sprintf(format, a...)}
	for _, g := range r.Findings {
		if g.Key == f.Key && g.Pos == f.Pos && g.Msg == f.Msg {
			return
		}
	}
	r.Findings = append(r.Findings, f)
}

func (r *Result) Count(unit string, n int) { r.Units[unit] += n }

func (r *Result) Sample(s any) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, s)
	}
}

type known struct {
	prop, key, desc string
}

// known_findings.txt lines:
//
//	known: property=<id> key=<key> -- description
//	fixed: property=<id> <commit> <what failed>
func loadKnown(verif string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		parts := strings.SplitN(l, " -- ", 2)
		desc := ""
		if len(parts) == 2 {
			desc = parts[1]
		}
		h := parts[0]
		i := strings.Index(h, " key=")
		if i < 0 || !strings.HasPrefix(h, "property=") {
			die("bad known_findings line: %s", l)
		}
		out = append(out, known{strings.TrimPrefix(h[:i], "property="), h[i+5:], desc})
	}
	return out
}

func finish(verif, prop, tier string, seed int, level string, r *Result, start time.Time) int {
	if r.Units == nil {
		r.Units = map[string]int{}
	}
	for u, m := range r.Minimum {
		if r.Units[u] < m {
			r.Add("coverage:"+u, "?", "analysed only %d %s, at least %d are expected: the anchors of the rule no longer resolve", r.Units[u], u, m)
		}
	}
	kn := loadKnown(verif)
	sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Key < r.Findings[j].Key })
	var viol []Finding
	printed := map[string]bool{}
	for _, f := range r.Findings {
		listed := false
		for _, k := range kn {
			if k.prop == prop && k.key == f.Key {
				listed = true
				if !printed[k.key] {
					printed[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s [%s] %s\n", prop, k.key, f.Pos, k.desc)
				}
			}
		}
		if !listed {
			viol = append(viol, f)
		}
	}
	var units []string
	for u, n := range r.Units {
		units = append(units, fmt.Sprintf("%s=%d", u, n))
	}
	sort.Strings(units)
	fmt.Printf("analysed: %s\n", strings.Join(units, " "))

	cov := map[string]any{
		"explanation": r.Explain,
		"rules":       r.Rules,
		"analysed":    r.Units,
		"samples":     r.Samples,
		"violations":  viol,
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	if len(viol) == 0 {
		fmt.Printf("OK property=%s\n", prop)
		return 0
	}
	rp := filepath.Join(verif, "evidence", prop+".violations.txt")
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "%s: [%s] %s\n", f.Pos, f.Key, f.Msg)
		fmt.Printf("  %s: [%s] %s\n", f.Pos, f.Key, f.Msg)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	return 1
}
