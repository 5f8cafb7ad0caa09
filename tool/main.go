package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Ctx is one run of one property's check.
type Ctx struct {
	ID       string
	Tier     string
	progs    map[string]*Prog
	Viol     []Violation
	vseen    map[string]bool
	Cover    map[string]any
	Rules    []string
	oblig    map[string]int // obligation kind -> discharged instances
	funcs    map[string]bool
	steps    int
	states   int
	samples  []string
	GOOSList []string
}

type Check struct {
	ID        string
	Technique string
	Explain   string
	Run       func(c *Ctx)
	// floors: minimum number of obligation instances confirmed by hand
	Floors map[string]int
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func (c *Ctx) Prog(goos string) *Prog {
	if p, ok := c.progs[goos]; ok {
		return p
	}
	p, err := Load(goos)
	if err != nil {
		c.Violate("load:"+goos, "?", "the repository does not load for GOOS=%s: %v", goos, err)
		panic(stopCheck{})
	}
	c.progs[goos] = p
	return p
}

type stopCheck struct{}

func (c *Ctx) Violate(key, pos, f string, a ...any) {
	if c.vseen[key] {
		return
	}
	c.vseen[key] = true
	c.Viol = append(c.Viol, Violation{Key: key, Pos: pos, Msg: fmt.Sprintf(f, a...)})
}

func (c *Ctx) Ok(kind string)         { c.oblig[kind]++ }
func (c *Ctx) OkN(kind string, n int) { c.oblig[kind] += n }
func (c *Ctx) Sample(f string, a ...any) {
	if len(c.samples) < 40 {
		c.samples = append(c.samples, fmt.Sprintf(f, a...))
	}
}

// Must resolves an anchor or fails the check.
func must[T any](c *Ctx, v T, err error) T {
	if err != nil {
		c.Violate("anchor", "?", "unresolved anchor: %v", err)
		panic(stopCheck{})
	}
	return v
}

// Absorb merges an engine run.
func (c *Ctx) Absorb(e *Engine) {
	for _, v := range e.Viol {
		if c.vseen[v.Key] {
			continue
		}
		c.vseen[v.Key] = true
		c.Viol = append(c.Viol, v)
	}
	for _, f := range e.Fail {
		c.Violate("undecided:"+f, "?", "undecided: %s", f)
	}
	for k, n := range e.Events {
		c.oblig[k] += n
	}
	for f := range e.Funcs {
		c.funcs[e.fnName(f)] = true
	}
	c.steps += e.Steps
	c.states += e.States
}

func verifDir() string {
	if d := os.Getenv("BABVERIF_DIR"); d != "" {
		return d
	}
	if d, err := os.Getwd(); err == nil {
		if _, err := os.Stat(filepath.Join(d, "MANIFEST.json")); err == nil {
			return d
		}
	}
	return "/verif"
}

type finding struct{ prop, key, text string }

func loadFindings() []finding {
	data, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: ")
		var fd finding
		parts := strings.SplitN(l, " | ", 2)
		for _, kv := range strings.Fields(parts[0]) {
			if v, ok := strings.CutPrefix(kv, "property="); ok {
				fd.prop = v
			}
			if v, ok := strings.CutPrefix(kv, "key="); ok {
				fd.key = v
			}
		}
		if len(parts) == 2 {
			fd.text = parts[1]
		}
		out = append(out, fd)
	}
	return out
}

func runCheck(ch *Check, tier string) int {
	start := time.Now()
	procStart = start
	c := &Ctx{ID: ch.ID, Tier: tier, progs: map[string]*Prog{}, vseen: map[string]bool{}, Cover: map[string]any{}, oblig: map[string]int{}, funcs: map[string]bool{}}
	func() {
		defer func() {
			if os.Getenv("BABVERIF_PANIC") != "" {
				return
			}
			if r := recover(); r != nil {
				if _, ok := r.(stopCheck); ok {
					return
				}
				c.Violate("panic", "?", "analyzer panic (undecided): %v\n%s", r, debug.Stack())
			}
		}()
		ch.Run(c)
	}()
	for k, n := range ch.Floors {
		if c.oblig[k] < n {
			c.Violate("floor:"+k, "?", "rule %q matched %d instance(s), fewer than the %d confirmed by hand: the analysis no longer sees the code it must judge", k, c.oblig[k], n)
		}
	}
	known := map[string]finding{}
	for _, f := range loadFindings() {
		if f.prop == ch.ID {
			known[f.key] = f
		}
	}
	var real []Violation
	var kn []string
	for _, v := range c.Viol {
		if f, ok := known[strings.ReplaceAll(v.Key, " ", "_")]; ok {
			kn = append(kn, fmt.Sprintf("KNOWN-FINDING: property=%s %s", ch.ID, f.text))
			continue
		}
		real = append(real, v)
	}
	sort.Strings(kn)
	for _, k := range kn {
		fmt.Println(k)
	}
	// report
	var kinds []string
	total := 0
	for k, n := range c.oblig {
		kinds = append(kinds, k)
		total += n
	}
	sort.Strings(kinds)
	fmt.Printf("[%s] tier=%s functions=%d abstract-states=%d transfer-steps=%d obligations=%d\n", ch.ID, tier, len(c.funcs), c.states, c.steps, total)
	for _, k := range kinds {
		fmt.Printf("  rule %-55s instances %d\n", k, c.oblig[k])
	}
	var fl []string
	for f := range c.funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	edir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(edir, 0o755)
	replay := filepath.Join(edir, ch.ID+".violations.txt")
	_ = os.Remove(replay)
	if len(real) > 0 {
		var b strings.Builder
		for _, v := range real {
			fmt.Fprintf(&b, "property %s\nrule/construct: %s\nat: %s\n%s\n", ch.ID, v.Key, v.Pos, v.Msg)
			for _, t := range v.Tr {
				fmt.Fprintf(&b, "    path: %s\n", t)
			}
			b.WriteString("\n")
		}
		_ = os.WriteFile(replay, []byte(b.String()), 0o644)
		os.Stdout.WriteString(b.String())
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation":            ch.Explain,
		"obligations_by_rule":    c.oblig,
		"functions_analysed":     fl,
		"abstract_states":        c.states,
		"transfer_steps":         c.steps,
		"goos":                   c.GOOSList,
		"known_findings_matched": len(kn),
	}
	if len(c.samples) > 0 {
		cov["samples"] = c.samples
	}
	for k, v := range c.Cover {
		cov[k] = v
	}
	ev := map[string]any{"property": ch.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(real),
		"assumptions": []string{"external packages behave as documented", "code paths inside opaque external callees do not call back into the repository except through closures passed to them"}}
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(edir, ch.ID+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	if len(real) > 0 {
		for range real[:1] {
			fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, replay)
		}
		return 1
	}
	fmt.Printf("[%s] held on everything analysed (%.1fs)\n", ch.ID, time.Since(start).Seconds())
	return 0
}

var _ = token.NoPos

func main() {
	debug.SetGCPercent(800)
	if len(os.Args) < 2 {
		fmt.Println("usage: babverif check <ID> [quick|thorough] | all | list")
		os.Exit(2)
	}
	tier := "quick"
	if len(os.Args) > 3 {
		tier = os.Args[3]
	} else if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		tier = t
	}
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	switch os.Args[1] {
	case "list":
		fmt.Println(strings.Join(ids, " "))
	case "check":
		ch := checks[os.Args[2]]
		if ch == nil {
			fmt.Println("unknown property", os.Args[2])
			os.Exit(2)
		}
		os.Exit(runCheck(ch, tier))
	case "all":
		bad := []string{}
		for _, id := range ids {
			if runCheck(checks[id], tier) != 0 {
				bad = append(bad, id)
			}
		}
		fmt.Println("failing:", bad)
		if len(bad) > 0 {
			os.Exit(1)
		}
	default:
		devCmd(os.Args[1:])
	}
}
